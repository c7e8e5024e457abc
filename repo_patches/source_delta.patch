From 45648aafec06ee2ab7754f4e3f431f6e0bf90ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 01/73] fix: decode ALSL.W/ALSL.D exactly and add ALSL.WU

alsl.wu was executed as alsl.w, which sign-extends its result.
---
 lib/libloong/la64.cpp              | 8 +++++---
 lib/libloong/la_instr.hpp          | 1 +
 lib/libloong/la_instr_enum.hpp     | 1 +
 lib/libloong/la_instr_impl.hpp     | 7 +++++++
 lib/libloong/la_instr_printers.hpp | 6 ++++++
 5 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 291f6fa..87590e6 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -211,6 +211,7 @@ namespace loongarch
 
 	// ALSL.W
 	INSTRUCTION(ALSL_W);
+	INSTRUCTION(ALSL_WU);
 
 	// Vector Load/Store (LSX)
 	INSTRUCTION(VLD);
@@ -548,9 +549,10 @@ namespace loongarch
 				if (op15 == 0x00099) return DECODED_INSTR(ROTRI_W);
 			}
 
-			// ALSL.W and ALSL.D use bits [31:18] with sa2 in bits [16:15]
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
+			// ALSL.W, ALSL.WU and ALSL.D use bits [31:17] with sa2 in bits [16:15]
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_W) return DECODED_INSTR(ALSL_W);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_WU) return DECODED_INSTR(ALSL_WU);
+			if ((instr.whole & 0xFFFE0000) == Opcode::ALSL_D) return DECODED_INSTR(ALSL_D);
 
 			// Immediate instructions (op22 match)
 			if (op22 == (Opcode::ADDI_W & 0xFFC00000)) return DECODED_INSTR(ADDI_W);
diff --git a/lib/libloong/la_instr.hpp b/lib/libloong/la_instr.hpp
index 95a8791..665f92a 100644
--- a/lib/libloong/la_instr.hpp
+++ b/lib/libloong/la_instr.hpp
@@ -170,6 +170,7 @@ namespace Opcode {
 	constexpr uint32_t SRL_D      = 0x00190000;
 	constexpr uint32_t SRA_D      = 0x00198000;
 	constexpr uint32_t ALSL_W     = 0x00040000;  // Address Load Shift Left Word
+	constexpr uint32_t ALSL_WU    = 0x00060000;  // Address Load Shift Left Word, zero-extended
 	constexpr uint32_t ALSL_D     = 0x002c0000;  // Address Load Shift Left Doubleword
 
 	// Load/Store
diff --git a/lib/libloong/la_instr_enum.hpp b/lib/libloong/la_instr_enum.hpp
index ffa4eb7..134a4f5 100644
--- a/lib/libloong/la_instr_enum.hpp
+++ b/lib/libloong/la_instr_enum.hpp
@@ -16,6 +16,7 @@ namespace loongarch {
 		ADD_W,
 		ALSL_D,
 		ALSL_W,
+		ALSL_WU,
 		AMADD_D,
 		AMADD_W,
 		AMAND_D,
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f170aff..f920de7 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1641,6 +1641,13 @@ struct InstrImpl {
 		cpu.reg(instr.r3sa2.rd) = static_cast<int64_t>(result);
 	}
 
+	static void ALSL_WU(cpu_t& cpu, la_instruction instr) {
+		// ALSL.WU: GR[rd] = ZeroExtend((GR[rj] << (sa2 + 1)) + GR[rk], 32)
+		uint32_t shift = instr.r3sa2.sa2 + 1;
+		uint32_t result = (static_cast<uint32_t>(cpu.reg(instr.r3sa2.rj)) << shift) + static_cast<uint32_t>(cpu.reg(instr.r3sa2.rk));
+		cpu.reg(instr.r3sa2.rd) = result;
+	}
+
 	// === Vector Load/Store Instructions (LSX 128-bit) ===
 
 	static void VLD(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 37948db..4d25d27 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -942,6 +942,12 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 			reg_name(instr.r3sa2.rk), instr.r3sa2.sa2 + 1);
 	}
 
+	static int ALSL_WU(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
+		return snprintf(buf, len, "alsl.wu %s, %s, %s, 0x%x",
+			reg_name(instr.r3sa2.rd), reg_name(instr.r3sa2.rj),
+			reg_name(instr.r3sa2.rk), instr.r3sa2.sa2 + 1);
+	}
+
 	// === LSX Vector Load/Store ===
 
 	static int VLD(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From 5507b736f2f6ae3f25624b5178e1e318701192b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 02/73] fix: keep register zero hardwired to zero

Handlers with rd=0 (precise mode and every FUNCTION bytecode) and the
PC-relative and lu12i.w bytecodes stored their result in r0.
---
 lib/libloong/bytecode_impl.cpp     | 2 ++
 lib/libloong/cpu.cpp               | 2 ++
 lib/libloong/threaded_rewriter.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index bf048c0..622943c 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1029,6 +1029,7 @@ INSTRUCTION(LA64_BC_FUNCTION, execute_decoded_function)
 	const auto handler = DECODER().get_handler();
 	//printf("Slow-path pc=0x%lx for instr %08X\n", RECONSTRUCT_PC(), DECODER().instr);
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(0) = 0; // R0 is hardwired to zero
 	NEXT_INSTR();
 }
 INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
@@ -1036,6 +1037,7 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	// Call the cached handler for this instruction
 	const auto handler = DECODER().get_extended_handler();
 	handler(CPU(), la_instruction{DECODER().instr});
+	REG(0) = 0; // R0 is hardwired to zero
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index 83f6398..c95c627 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -70,6 +70,8 @@ namespace loongarch
 	{
 		const auto& handler = decode(instr);
 		handler.handler(*this, instr);
+		// R0 is hardwired to zero
+		this->reg(0) = 0;
 	}
 
 	bool CPU::is_executable(address_t addr) const noexcept
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 5ce172a..89ac854 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -226,6 +226,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		case LA64_BC_PCADDI:
 		case LA64_BC_PCALAU12I:
 		case LA64_BC_LU12I_W:
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			// No optimization needed - use original instruction bits
 			return instruction_bits;
 		case LA64_BC_LDPTR_D: {
@@ -676,9 +677,11 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 		} break;
 		case LA64_BC_PCADDU12I:
 			// PCADDU12I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_PCADDU18I:
 			// PCADDU18I uses PC, handled as diverging instruction
+			NOP_IF_RD_ZERO(original.ri20.rd, bytecode);
 			return instruction_bits;
 		case LA64_BC_ANDN: {
 			// ANDN rd, rj, rk - uses R3 format
-- 
2.43.0


From 2f6b8f5c8fc6795627da209bc2ce925a1ca5e9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 03/73] fix: correct ori, sltui, bytepick.d, pcaddu18i and
 stx.b

ori was mapped to MOVE (or STOP) by its register fields, sltui zero-extended
its immediate and stx.b of r0 was dropped in the fast dispatchers, bytepick.d
picked the wrong bytes, and pcaddu18i lost the upper bits of its offset.
---
 lib/libloong/bytecode_impl.cpp     |  4 ++--
 lib/libloong/decoder_cache.cpp     | 10 +---------
 lib/libloong/la_instr_impl.hpp     | 10 +++++-----
 lib/libloong/threaded_rewriter.cpp |  7 +++----
 4 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 622943c..c304fc5 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -752,9 +752,9 @@ INSTRUCTION(LA64_BC_BYTEPICK_D, la64_bytepick_d)
 	uint32_t shift = fi.sa3 * 8;
 	uint64_t result;
 	if (shift == 0) {
-		result = rj_val;
+		result = rk_val;
 	} else {
-		result = (rk_val << (64 - shift)) | (rj_val >> shift);
+		result = (rk_val << shift) | (rj_val >> (64 - shift));
 	}
 	REG(fi.rd) = result;
 	NEXT_INSTR();
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 6f0b101..82da4e3 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -63,15 +63,7 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 				}
 				return LA64_BC_OR;
 			}
-		case InstrId::ORI:
-			// MOVE is ORI with imm==0
-			{
-				const uint32_t imm = instr & 0xFFF;
-				if (imm == 0) {
-					return LA64_BC_MOVE;
-				}
-				return LA64_BC_ORI;
-			}
+		case InstrId::ORI: return LA64_BC_ORI;
 
 		case InstrId::LD_D: return LA64_BC_LD_D;
 		case InstrId::ST_D: return LA64_BC_ST_D;
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index f920de7..7a669d2 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -164,7 +164,7 @@ struct InstrImpl {
 	static void BYTEPICK_D(cpu_t& cpu, la_instruction instr) {
 		// BYTEPICK.D rd, rj, rk, sa3
 		// Concatenates rk and rj as a 128-bit value [rk:rj]
-		// Then extracts 64 bits starting at byte offset sa3
+		// Then extracts 64 bits starting at byte offset (8 - sa3)
 		uint32_t sa3 = (instr.whole >> 15) & 0x7;
 		uint64_t rj_val = cpu.reg(instr.r3.rj);
 		uint64_t rk_val = cpu.reg(instr.r3.rk);
@@ -172,12 +172,12 @@ struct InstrImpl {
 		// Shift amount in bits = sa3 * 8
 		uint32_t shift = sa3 * 8;
 
-		// Result is (rk << (64 - shift)) | (rj >> shift)
+		// Result is (rk << shift) | (rj >> (64 - shift))
 		uint64_t result;
 		if (shift == 0) {
-			result = rj_val;
+			result = rk_val;
 		} else {
-			result = (rk_val << (64 - shift)) | (rj_val >> shift);
+			result = (rk_val << shift) | (rj_val >> (64 - shift));
 		}
 		cpu.reg(instr.r3.rd) = result;
 	}
@@ -570,7 +570,7 @@ struct InstrImpl {
 
 	static void PCADDU18I(cpu_t& cpu, la_instruction instr) {
 		int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-		int64_t offset = (int64_t)(si20 << 18);
+		int64_t offset = (int64_t)si20 * (int64_t(1) << 18);
 		cpu.reg(instr.ri20.rd) = cpu.pc() + offset;
 	}
 
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 89ac854..ba45b85 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -639,12 +639,12 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			return fi.whole;
 		} break;
 		case LA64_BC_SLTUI: {
-			// SLTUI rd, rj, imm12 - uses RI12 format with zero-extended immediate
+			// SLTUI rd, rj, imm12 - uses RI12 format with sign-extended immediate
 			auto fi = *(FasterLA64_RI12 *)&instruction_bits;
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
-			// SLTUI uses zero-extended immediate for unsigned comparison
-			fi.imm = original.ri12.imm & 0xFFF;
+			// SLTUI sign-extends its immediate before the unsigned comparison
+			fi.set_imm(original.ri12.imm);
 			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
@@ -698,7 +698,6 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_EXT_W_H: {
-- 
2.43.0


From 1ecaf5d4b46820e6194527d116e0fa7d51a716f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 04/73] fix: full-width bstrpick and bstrins

A field of 64 (32) bits shifted by the operand width.
---
 lib/libloong/bytecode_impl.cpp | 8 ++++----
 lib/libloong/la_instr_impl.hpp | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index c304fc5..92678ff 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -194,7 +194,7 @@ INSTRUCTION(LA64_BC_BSTRPICK_D, la64_bstrpick_d)
 	auto fi = *(FasterLA64_BitField *)&DECODER().instr;
 	const address_t src = REG(fi.rj);
 	const uint32_t width = fi.msbd - fi.lsbd + 1;
-	const address_t mask = (1ULL << width) - 1;
+	const address_t mask = (width < 64) ? (1ULL << width) - 1 : ~0ULL;
 	REG(fi.rd) = (src >> fi.lsbd) & mask;
 	NEXT_INSTR();
 }
@@ -308,8 +308,8 @@ INSTRUCTION(LA64_BC_BSTRPICK_W, la64_bstrpick_w)
 	auto fi = *(FasterLA64_BitFieldW *)&DECODER().instr;
 	const uint32_t src = (uint32_t)REG(fi.rj);
 	const uint32_t width = fi.msbw - fi.lsbw + 1;
-	const uint32_t mask = (1U << width) - 1;
-	REG(fi.rd) = (src >> fi.lsbw) & mask;
+	const uint32_t mask = (uint32_t)((1ULL << (width & 63)) - 1);
+	REG(fi.rd) = (saddress_t)(int32_t)((src >> fi.lsbw) & mask);
 	NEXT_INSTR();
 }
 
@@ -419,7 +419,7 @@ INSTRUCTION(LA64_BC_BSTRINS_D, la64_bstrins_d)
 	// Valid when msbd >= lsbd
 	if (fi.msbd >= fi.lsbd) {
 		uint32_t width = fi.msbd - fi.lsbd + 1;
-		uint64_t mask = ((1ULL << width) - 1) << fi.lsbd;
+		uint64_t mask = ((width < 64) ? (1ULL << width) - 1 : ~0ULL) << fi.lsbd;
 		uint64_t bits = (src << fi.lsbd) & mask;
 		REG(fi.rd) = (dst & ~mask) | bits;
 	}
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 7a669d2..1a925c8 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -592,7 +592,7 @@ struct InstrImpl {
 		// Valid when msbd >= lsbd
 		if (msbd >= lsbd) {
 			uint32_t width = msbd - lsbd + 1;
-			uint64_t mask = ((1ULL << width) - 1) << lsbd;
+			uint64_t mask = ((width < 64) ? (1ULL << width) - 1 : ~0ULL) << lsbd;
 			uint64_t bits = (src << lsbd) & mask;
 			cpu.reg(instr.ri16.rd) = (dst & ~mask) | bits;
 		}
@@ -606,7 +606,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbd - lsbd + 1;
-		uint64_t mask = (1ULL << width) - 1;
+		uint64_t mask = (width < 64) ? (1ULL << width) - 1 : ~0ULL;
 		uint64_t result = (src >> lsbd) & mask;
 		cpu.reg(instr.ri16.rd) = result;
 	}
@@ -622,7 +622,7 @@ struct InstrImpl {
 		// Valid when msbw >= lsbw
 		if (msbw >= lsbw) {
 			uint32_t width = msbw - lsbw + 1;
-			uint32_t mask = ((1U << width) - 1) << lsbw;
+			uint32_t mask = (uint32_t)((1ULL << width) - 1) << lsbw;
 			uint32_t bits = (src << lsbw) & mask;
 			uint32_t result = (dst & ~mask) | bits;
 			// Sign-extend to 64 bits
@@ -639,7 +639,7 @@ struct InstrImpl {
 
 		// Extract the bit field
 		uint32_t width = msbw - lsbw + 1;
-		uint32_t mask = (1U << width) - 1;
+		uint32_t mask = (uint32_t)((1ULL << (width & 63)) - 1);
 		uint32_t result = (src >> lsbw) & mask;
 		cpu.reg(instr.ri16.rd) = (int32_t)result;
 	}
-- 
2.43.0


From c6de645bda2def904775e349dfbc9b3d275930eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 05/73] fix: division overflow must not trap on the host

---
 lib/libloong/la_instr_impl.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 1a925c8..8d2a9e1 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -62,13 +62,15 @@ struct InstrImpl {
 	static void DIV_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a / b) : 0;
+		// Widened, as INT32_MIN / -1 overflows (and traps on the host)
+		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(static_cast<int32_t>(int64_t(a) / b)) : 0;
 	}
 
 	static void MOD_W(cpu_t& cpu, la_instruction instr) {
 		int32_t a = static_cast<int32_t>(cpu.reg(instr.r3.rj));
 		int32_t b = static_cast<int32_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? static_cast<int64_t>(a % b) : 0;
+		// Widened, as INT32_MIN % -1 overflows (and traps on the host)
+		cpu.reg(instr.r3.rd) = (b != 0) ? int64_t(a) % b : 0;
 	}
 
 	static void DIV_WU(cpu_t& cpu, la_instruction instr) {
@@ -86,13 +88,18 @@ struct InstrImpl {
 	static void DIV_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
+		// INT64_MIN / -1 overflows (and traps on the host)
+		if (b == -1)
+			cpu.reg(instr.r3.rd) = uint64_t(0) - uint64_t(a);
+		else
+			cpu.reg(instr.r3.rd) = (b != 0) ? (a / b) : 0;
 	}
 
 	static void MOD_D(cpu_t& cpu, la_instruction instr) {
 		int64_t a = static_cast<int64_t>(cpu.reg(instr.r3.rj));
 		int64_t b = static_cast<int64_t>(cpu.reg(instr.r3.rk));
-		cpu.reg(instr.r3.rd) = (b != 0) ? (a % b) : 0;
+		// INT64_MIN % -1 overflows (and traps on the host)
+		cpu.reg(instr.r3.rd) = (b != 0 && b != -1) ? (a % b) : 0;
 	}
 
 	static void DIV_DU(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From 227e008f33b920fe27349cedd9c7fb00c008f15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 06/73] fix: guest memory accesses may be misaligned

Aligned vector moves crash the host on a misaligned xvld/xvst.
---
 lib/libloong/memory_inline.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index b147ff9..661cd5f 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -20,7 +20,10 @@ inline T Memory::read(address_t addr) const
 		}
 	}
 
-	return *reinterpret_cast<const T*>(&m_arena[addr]);
+	// Guest addresses may be misaligned for T
+	T value;
+	std::memcpy(&value, &m_arena[addr], sizeof(T));
+	return value;
 }
 
 template <typename T, bool EnableSegReg>
@@ -38,7 +41,8 @@ inline void Memory::write(address_t addr, T value)
 		}
 	}
 
-	*reinterpret_cast<T*>(&m_arena[addr]) = value;
+	// Guest addresses may be misaligned for T
+	std::memcpy(&m_arena[addr], &value, sizeof(T));
 }
 
 template <typename T>
-- 
2.43.0


From d443f4b7d4e117fa4c03fa8a51ae8f0d41a1e0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 07/73] fix: guest integer arithmetic wraps around

---
 lib/CMakeLists.txt | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/CMakeLists.txt b/lib/CMakeLists.txt
index df68d1c..0688f72 100644
--- a/lib/CMakeLists.txt
+++ b/lib/CMakeLists.txt
@@ -163,6 +163,8 @@ if (CMAKE_CXX_COMPILER_ID STREQUAL "GNU" OR CMAKE_CXX_COMPILER_ID STREQUAL "Clan
 	target_compile_options(loong PRIVATE
 		-Wall -Wextra -Wno-unused-parameter
 		-fno-rtti
+		# Guest integer arithmetic wraps around
+		-fwrapv
 	)
 endif()
 
-- 
2.43.0


From c46ad34d0d7d0494589ae10b1ff67699e705c09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 08/73] fix: fused multiply-add instructions round once

Also corrects the operand signs of the vector fmsub/fnmadd/fnmsub forms.
---
 lib/libloong/bytecode_impl.cpp                |  6 +-
 lib/libloong/la_instr_impl.hpp                | 84 +++++++++----------
 lib/libloong/tailcall_dispatch.cpp            |  1 +
 lib/libloong/tailcall_inaccurate_dispatch.cpp |  1 +
 lib/libloong/threaded_dispatch.cpp            |  1 +
 lib/libloong/threaded_inaccurate_dispatch.cpp |  1 +
 6 files changed, 49 insertions(+), 45 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 92678ff..5547809 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -615,8 +615,8 @@ INSTRUCTION(LA64_BC_VFMADD_D, la64_vfmadd_d)
 	const auto& src_k = REGISTERS().getvr(fi.rk);
 	const auto& src_a = REGISTERS().getvr(fi.ra);
 
-	dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-	dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+	dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+	dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 	NEXT_INSTR();
 }
 
@@ -689,7 +689,7 @@ INSTRUCTION(LA64_BC_FMADD_D, la64_fmadd_d)
 	const auto& vr_a = REGISTERS().getvr(fi.ra);
 	auto& vr_d = REGISTERS().getvr(fi.rd);
 
-	vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+	vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	NEXT_INSTR();
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 8d2a9e1..4528dbc 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1407,7 +1407,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] + vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1417,7 +1417,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_k.f[0] * vr_j.f[0] - vr_a.f[0];
+		vr_d.f[0] = std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FLDX_S(cpu_t& cpu, la_instruction instr) {
@@ -1458,7 +1458,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_k.df[0] * vr_j.df[0] - vr_a.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void FMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1468,7 +1468,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] + vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -1478,7 +1478,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = -(vr_a.f[0] + vr_j.f[0] * vr_k.f[0]);
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], vr_a.f[0]);
 	}
 
 	static void FNMADD_D(cpu_t& cpu, la_instruction instr) {
@@ -1488,7 +1488,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = -(vr_a.df[0] + vr_j.df[0] * vr_k.df[0]);
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], vr_a.df[0]);
 	}
 
 	static void FNMSUB_S(cpu_t& cpu, la_instruction instr) {
@@ -1498,7 +1498,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.f[0] = vr_a.f[0] - vr_j.f[0] * vr_k.f[0];
+		vr_d.f[0] = -std::fma(vr_j.f[0], vr_k.f[0], -vr_a.f[0]);
 	}
 
 	static void FNMSUB_D(cpu_t& cpu, la_instruction instr) {
@@ -1508,7 +1508,7 @@ struct InstrImpl {
 		const auto& vr_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& vr_a = cpu.registers().getvr(instr.r4.ra);
 		auto& vr_d = cpu.registers().getvr(instr.r4.rd);
-		vr_d.df[0] = vr_a.df[0] - vr_j.df[0] * vr_k.df[0];
+		vr_d.df[0] = -std::fma(vr_j.df[0], vr_k.df[0], -vr_a.df[0]);
 	}
 
 	static void CLO_W(cpu_t& cpu, la_instruction instr) {
@@ -2881,14 +2881,14 @@ struct InstrImpl {
 
 	static void VFMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFMADD.D: Vector fused multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = va + vj * vk
+		// 4R-type format: vd = vj * vk + va
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2896,14 +2896,14 @@ struct InstrImpl {
 
 	static void VFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// VFNMADD.D: Vector fused negative multiply-add (double precision, 2x64-bit)
-		// 4R-type format: vd = -(vj * vk) + va = va - vj * vk
+		// 4R-type format: vd = -(vj * vk + va)
 		const auto& src_j = cpu.registers().getvr(instr.r4.rj);
 		const auto& src_k = cpu.registers().getvr(instr.r4.rk);
 		const auto& src_a = cpu.registers().getvr(instr.r4.ra);
 		auto& dst = cpu.registers().getvr(instr.r4.rd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -3883,7 +3883,7 @@ struct InstrImpl {
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMADD.S: LASX vector fused multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = xa + xj * xk
+		// 4R-type format: xd = xj * xk + xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3895,13 +3895,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] + src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMADD.D: LASX vector fused multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = xa + xj * xk
+		// 4R-type format: xd = xj * xk + xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3912,15 +3912,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] + src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] + src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] + src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] + src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.S: LASX vector fused multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3932,13 +3932,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFMSUB.D: LASX vector fused multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = xa - xj * xk
+		// 4R-type format: xd = xj * xk - xa
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3949,15 +3949,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVFNMADD_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.S: LASX vector fused negative multiply-add (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3969,13 +3969,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = src_a.f[i] - src_j.f[i] * src_k.f[i];
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], src_a.f[i]);
 		}
 	}
 
 	static void XVFNMADD_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMADD.D: LASX vector fused negative multiply-add (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) + xa = xa - xj * xk
+		// 4R-type format: xd = -(xj * xk + xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -3986,15 +3986,15 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = src_a.df[0] - src_j.df[0] * src_k.df[0];
-		dst.df[1] = src_a.df[1] - src_j.df[1] * src_k.df[1];
-		dst.df[2] = src_a.df[2] - src_j.df[2] * src_k.df[2];
-		dst.df[3] = src_a.df[3] - src_j.df[3] * src_k.df[3];
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], src_a.df[3]);
 	}
 
 	static void XVFNMSUB_S(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.S: LASX vector fused negative multiply-subtract (single precision, 8x32-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4006,13 +4006,13 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(xd);
 
 		for (int i = 0; i < 8; i++) {
-			dst.f[i] = -(src_a.f[i] + src_j.f[i] * src_k.f[i]);
+			dst.f[i] = -std::fma(src_j.f[i], src_k.f[i], -src_a.f[i]);
 		}
 	}
 
 	static void XVFNMSUB_D(cpu_t& cpu, la_instruction instr) {
 		// XVFNMSUB.D: LASX vector fused negative multiply-subtract (double precision, 4x64-bit)
-		// 4R-type format: xd = -(xj * xk) - xa = -xa - xj * xk
+		// 4R-type format: xd = -(xj * xk - xa)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4023,10 +4023,10 @@ struct InstrImpl {
 		const auto& src_a = cpu.registers().getvr(xa);
 		auto& dst = cpu.registers().getvr(xd);
 
-		dst.df[0] = -(src_a.df[0] + src_j.df[0] * src_k.df[0]);
-		dst.df[1] = -(src_a.df[1] + src_j.df[1] * src_k.df[1]);
-		dst.df[2] = -(src_a.df[2] + src_j.df[2] * src_k.df[2]);
-		dst.df[3] = -(src_a.df[3] + src_j.df[3] * src_k.df[3]);
+		dst.df[0] = -std::fma(src_j.df[0], src_k.df[0], -src_a.df[0]);
+		dst.df[1] = -std::fma(src_j.df[1], src_k.df[1], -src_a.df[1]);
+		dst.df[2] = -std::fma(src_j.df[2], src_k.df[2], -src_a.df[2]);
+		dst.df[3] = -std::fma(src_j.df[3], src_k.df[3], -src_a.df[3]);
 	}
 
 	static void XVORI_B(cpu_t& cpu, la_instruction instr) {
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 15af969..e52cccb 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 #include "instruction_counter.hpp"
 
 #define MUSTTAIL __attribute__((musttail))
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 0cfa43c..64b17cf 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define MUSTTAIL __attribute__((musttail))
 #define MUNUSED  [[maybe_unused]]
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index e073e5f..4778a9b 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define DECODER()   (*decoder)
 #define CPU()       (*this)
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index c7a7772..b0caabb 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -1,6 +1,7 @@
 #include "cpu.hpp"
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
+#include <cmath>
 
 #define DECODER()   (*decoder)
 #define CPU()       (*this)
-- 
2.43.0


From b0b13dbf4852fd9dbe7dc0381dab91e3256c4646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 09/73] fix: float to integer conversions saturate and map NaN
 to zero

---
 lib/libloong/la_instr_impl.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 4528dbc..05704e3 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2,6 +2,7 @@
 #include "cpu.hpp"
 #include "la_instr.hpp"
 #include <cmath>
+#include <limits>
 
 namespace loongarch {
 
@@ -10,6 +11,17 @@ struct InstrImpl {
 	using addr_t = address_t;
 	using saddr_t = std::make_signed_t<addr_t>;
 
+	// Floating-point to integer conversion, rounding towards zero.
+	// NaN gives zero, out-of-range values saturate.
+	template <typename I, typename F>
+	static I convert_truncated(F value) {
+		constexpr F limit = -F(std::numeric_limits<I>::min()); // 2^(N-1), exact
+		if (std::isnan(value)) return 0;
+		if (value >= limit) return std::numeric_limits<I>::max();
+		if (value <= -limit) return std::numeric_limits<I>::min();
+		return static_cast<I>(value);
+	}
+
 	// === Arithmetic Instructions ===
 
 	static void ADD_W(cpu_t& cpu, la_instruction instr) {
@@ -1263,7 +1275,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.f[0]));
+		int32_t int_val = convert_truncated<int32_t>(vr_j.f[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1275,7 +1287,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int32_t int_val = static_cast<int32_t>(std::trunc(vr_j.df[0]));
+		int32_t int_val = convert_truncated<int32_t>(vr_j.df[0]);
 		vr_d.w[0] = int_val;
 	}
 
@@ -1287,7 +1299,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.f[0]));
+		int64_t int_val = convert_truncated<int64_t>(vr_j.f[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -1299,7 +1311,7 @@ struct InstrImpl {
 		const auto& vr_j = cpu.registers().getvr(fj);
 		auto& vr_d = cpu.registers().getvr(fd);
 		// Truncate towards zero (trunc)
-		int64_t int_val = static_cast<int64_t>(std::trunc(vr_j.df[0]));
+		int64_t int_val = convert_truncated<int64_t>(vr_j.df[0]);
 		vr_d.d[0] = int_val;
 	}
 
@@ -2854,10 +2866,10 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each single-precision float to int32 with truncation towards zero
-		dst.w[0] = (int32_t)src.f[0];
-		dst.w[1] = (int32_t)src.f[1];
-		dst.w[2] = (int32_t)src.f[2];
-		dst.w[3] = (int32_t)src.f[3];
+		dst.w[0] = convert_truncated<int32_t>(src.f[0]);
+		dst.w[1] = convert_truncated<int32_t>(src.f[1]);
+		dst.w[2] = convert_truncated<int32_t>(src.f[2]);
+		dst.w[3] = convert_truncated<int32_t>(src.f[3]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
@@ -2872,8 +2884,8 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Convert each double-precision float to int64 with truncation towards zero
-		dst.d[0] = (int64_t)src.df[0];
-		dst.d[1] = (int64_t)src.df[1];
+		dst.d[0] = convert_truncated<int64_t>(src.df[0]);
+		dst.d[1] = convert_truncated<int64_t>(src.df[1]);
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
 		dst.du[3] = 0;
-- 
2.43.0


From 43d7a3a379f0ede195bd269b963c7fcfb49ec787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 10/73] fix: fclass result bits

---
 lib/libloong/la_instr_impl.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 05704e3..3e4521e 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -1162,15 +1162,16 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint32_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			// The most significant fraction bit is set in quiet NaNs
+			result = ((vr_j.wu[0] >> 22) & 1) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
+			result = is_neg ? 0x020 : 0x200;
 		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x010 : 0x100;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
 		}
 		vr_d.wu[0] = result;
 	}
@@ -1190,15 +1191,16 @@ struct InstrImpl {
 		// FCLASS returns a 10-bit mask indicating the class
 		uint64_t result = 0;
 		if (fpclass == FP_NAN) {
-			if (std::isnan(val)) result = is_neg ? 0x001 : 0x200; // sNaN or qNaN
+			// The most significant fraction bit is set in quiet NaNs
+			result = ((vr_j.du[0] >> 51) & 1) ? 0x002 : 0x001; // qNaN or sNaN
 		} else if (fpclass == FP_INFINITE) {
-			result = is_neg ? 0x002 : 0x100;
+			result = is_neg ? 0x004 : 0x040;
 		} else if (fpclass == FP_ZERO) {
-			result = is_neg ? 0x004 : 0x080;
+			result = is_neg ? 0x020 : 0x200;
 		} else if (fpclass == FP_SUBNORMAL) {
-			result = is_neg ? 0x008 : 0x040;
+			result = is_neg ? 0x010 : 0x100;
 		} else if (fpclass == FP_NORMAL) {
-			result = is_neg ? 0x010 : 0x020;
+			result = is_neg ? 0x008 : 0x080;
 		}
 		vr_d.du[0] = result;
 	}
-- 
2.43.0


From 1bfa3d01d1f3087945e55497572b3882a277b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 11/73] fix: LSX/LASX element selection

Lane-crossing pick/pack/interleave/replicate/msknz, the operands of
vhaddw/xvhaddw, aliased vpickev.w and vfrstpi.b.
---
 lib/libloong/bytecode_impl.cpp |   6 +-
 lib/libloong/la_instr_impl.hpp | 234 +++++++++++++++++----------------
 2 files changed, 126 insertions(+), 114 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 5547809..0d8a934 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -628,9 +628,9 @@ INSTRUCTION(LA64_BC_VHADDW_D_W, la64_vhaddw_d_w)
 	const auto& src1 = REGISTERS().getvr(fi.rj);
 	const auto& src2 = REGISTERS().getvr(fi.rk);
 
-	// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-	const int64_t res1 = (int64_t)(int32_t)src1.w[0] + (int64_t)(int32_t)src1.w[1];
-	const int64_t res2 = (int64_t)(int32_t)src2.w[0] + (int64_t)(int32_t)src2.w[1];
+	// Add odd words of vj to even words of vk
+	const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+	const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 	dst.d[0] = res1;
 	dst.d[1] = res2;
 	// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 3e4521e..9f8e042 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2092,14 +2092,14 @@ struct InstrImpl {
 
 	static void VHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// VHADDW.D.W: Vector horizontal add with widening (word to doubleword)
-		// Adds adjacent pairs of 32-bit signed words and produces 64-bit results
+		// Adds odd words of vj to even words of vk, producing 64-bit results
 		const auto& src1 = cpu.registers().getvr(instr.r3.rj);
 		const auto& src2 = cpu.registers().getvr(instr.r3.rk);
 		auto& dst = cpu.registers().getvr(instr.r3.rd);
 
-		// Add adjacent pairs: vj[0]+vj[1], vk[0]+vk[1]
-		const int64_t res1 = (int64_t)src1.w[0] + (int64_t)src1.w[1];
-		const int64_t res2 = (int64_t)src2.w[0] + (int64_t)src2.w[1];
+		// Add odd words of vj to even words of vk
+		const int64_t res1 = (int64_t)src1.w[1] + (int64_t)src2.w[0];
+		const int64_t res2 = (int64_t)src1.w[3] + (int64_t)src2.w[2];
 		dst.d[0] = res1;
 		dst.d[1] = res2;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
@@ -2109,22 +2109,19 @@ struct InstrImpl {
 
 	static void XVHADDW_D_W(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.D.W: LASX vector horizontal add with widening (word to doubleword, 256-bit)
-		// Adds adjacent pairs of 32-bit signed words from xj and produces 64-bit results
-		// Takes all 8 words from xj, produces 4 doublewords
+		// Adds odd words of xj to even words of xk, producing 64-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src_j = cpu.registers().getvr(xj);
-		//const auto& src_k = cpu.registers().getvr(xk);
+		const auto& src_k = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 8 words from xj: pairs (0,1), (2,3), (4,5), (6,7) → 4 doublewords
-		// xk is unused (or maybe used for other operand in 3-register form)
-		int64_t r0 = (int64_t)src_j.w[0] + (int64_t)src_j.w[1];
-		int64_t r1 = (int64_t)src_j.w[2] + (int64_t)src_j.w[3];
-		int64_t r2 = (int64_t)src_j.w[4] + (int64_t)src_j.w[5];
-		int64_t r3 = (int64_t)src_j.w[6] + (int64_t)src_j.w[7];
+		int64_t r0 = (int64_t)src_j.w[1] + (int64_t)src_k.w[0];
+		int64_t r1 = (int64_t)src_j.w[3] + (int64_t)src_k.w[2];
+		int64_t r2 = (int64_t)src_j.w[5] + (int64_t)src_k.w[4];
+		int64_t r3 = (int64_t)src_j.w[7] + (int64_t)src_k.w[6];
 
 		auto& dst = cpu.registers().getvr(xd);
 		dst.d[0] = r0;
@@ -2267,18 +2264,17 @@ struct InstrImpl {
 
 	static void XVHADDW_Q_D(cpu_t& cpu, la_instruction instr) {
 		// XVHADDW.Q.D: LASX vector horizontal add with widening (doubleword to quadword, 256-bit)
-		// Adds adjacent pairs of 64-bit signed doublewords and produces 128-bit results
+		// Adds odd doublewords of xj to even doublewords of xk, producing 128-bit results
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		//uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t xk = (instr.whole >> 10) & 0x1F;
 
 		const auto& src1 = cpu.registers().getvr(xj);
-		//const auto& src2 = cpu.registers().getvr(xk);
+		const auto& src2 = cpu.registers().getvr(xk);
 
 		// Read all inputs first to handle register aliasing
-		// Takes all 4 doublewords from xj: pairs (0,1), (2,3) → 2 quadwords
-		__int128 q0 = (__int128)src1.d[0] + (__int128)src1.d[1];
-		__int128 q1 = (__int128)src1.d[2] + (__int128)src1.d[3];
+		__int128 q0 = (__int128)src1.d[1] + (__int128)src2.d[0];
+		__int128 q1 = (__int128)src1.d[3] + (__int128)src2.d[2];
 
 		// Store quadwords as pairs of doublewords
 		auto& dst = cpu.registers().getvr(xd);
@@ -2478,10 +2474,15 @@ struct InstrImpl {
 		auto& dst = cpu.registers().getvr(vd);
 
 		// Pick even words: dst = [vk[0], vk[2], vj[0], vj[2]]
-		dst.wu[0] = src_k.wu[0];
-		dst.wu[1] = src_k.wu[2];
-		dst.wu[2] = src_j.wu[0];
-		dst.wu[3] = src_j.wu[2];
+		// Read all inputs first to handle register aliasing
+		const uint32_t r0 = src_k.wu[0];
+		const uint32_t r1 = src_k.wu[2];
+		const uint32_t r2 = src_j.wu[0];
+		const uint32_t r3 = src_j.wu[2];
+		dst.wu[0] = r0;
+		dst.wu[1] = r1;
+		dst.wu[2] = r2;
+		dst.wu[3] = r3;
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.wu[4] = 0;
 		dst.wu[5] = 0;
@@ -3029,8 +3030,8 @@ struct InstrImpl {
 
 	static void VFRSTPI_B(cpu_t& cpu, la_instruction instr) {
 		// VFRSTPI.B vd, vj, ui5
-		// Find first set position in vector (starting from ui5)
-		// Sets vd[0] to the position of first non-zero byte starting from position ui5
+		// Find the first negative byte of vj (16 if there is none),
+		// and store its index in byte (ui5 mod 16) of vd
 		uint32_t vd = instr.whole & 0x1F;
 		uint32_t vj = (instr.whole >> 5) & 0x1F;
 		uint32_t ui5 = (instr.whole >> 10) & 0x1F;
@@ -3038,19 +3039,15 @@ struct InstrImpl {
 		const auto& src = cpu.registers().getvr(vj);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// Find first non-zero byte starting from ui5
 		uint8_t pos = 16; // Default: not found
-		for (int i = ui5; i < 16; i++) {
-			uint8_t byte = src.bu[i];
-			if (byte != 0) {
+		for (int i = 0; i < 16; i++) {
+			if (src.b[i] < 0) {
 				pos = i;
 				break;
 			}
 		}
 
-		// Store result in first byte of vd, clear rest
-		dst.du[0] = pos;
-		dst.du[1] = 0;
+		dst.bu[ui5 & 15] = pos;
 	}
 
 	static void BCNEZ(cpu_t& cpu, la_instruction instr) {
@@ -3633,7 +3630,7 @@ struct InstrImpl {
 
 	static void XVMSKNZ_B(cpu_t& cpu, la_instruction instr) {
 		// XVMSKNZ.B xd, xj
-		// Create a 32-bit mask where each bit indicates if corresponding byte is non-zero
+		// For each 128-bit lane, create a 16-bit mask of its non-zero bytes
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 
@@ -3650,9 +3647,9 @@ struct InstrImpl {
 			}
 		}
 
-		dst.du[0] = mask;
+		dst.du[0] = mask & 0xFFFF;
 		dst.du[1] = 0;
-		dst.du[2] = 0;
+		dst.du[2] = mask >> 16;
 		dst.du[3] = 0;
 	}
 
@@ -3874,25 +3871,23 @@ struct InstrImpl {
 	}
 
 	static void XVREPLVE_D(cpu_t& cpu, la_instruction instr) {
-		// XVREPLVE.D: LASX vector replicate element from register (double precision)
-		// Replicates element selected by rj to all elements in xd from vector xk
-		// Format: xd[i] = xk[rj % 4] for all i
+		// XVREPLVE.D: within each 128-bit lane, replicate the element of xj
+		// selected by general register rk (modulo 2)
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
-		uint32_t xk = (instr.whole >> 10) & 0x1F;
+		uint32_t rk = (instr.whole >> 10) & 0x1F;
 
-		const auto& src = cpu.registers().getvr(xk);
+		const auto& src = cpu.registers().getvr(xj);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Get the element index from register rj (modulo 4 for double elements)
-		uint32_t idx = cpu.reg(xj) & 0x3;
-
-		// Replicate the selected element to all 4 positions
-		uint64_t value = src.du[idx];
-		dst.du[0] = value;
-		dst.du[1] = value;
-		dst.du[2] = value;
-		dst.du[3] = value;
+		// Element index from general register rk (modulo 2)
+		const uint32_t idx = cpu.reg(rk) & 0x1;
+		const uint64_t lo = src.du[idx];
+		const uint64_t hi = src.du[2 + idx];
+		dst.du[0] = lo;
+		dst.du[1] = lo;
+		dst.du[2] = hi;
+		dst.du[3] = hi;
 	}
 
 	static void XVFMADD_S(cpu_t& cpu, la_instruction instr) {
@@ -4080,8 +4075,7 @@ struct InstrImpl {
 	}
 
 	static void XVILVL_D(cpu_t& cpu, la_instruction instr) {
-		// XVILVL.D: LASX vector interleave low double-word (256-bit)
-		// Interleaves the low 128-bit double-words from two 256-bit vectors
+		// XVILVL.D: interleave low doublewords, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4090,17 +4084,19 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[0], dst[1] = src_j[0], dst[2] = src_k[1], dst[3] = src_j[1]
-		// For LASX (256-bit), we interleave the low 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[0];
-		dst.du[1] = src_j.du[0];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_j.du[1];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.du[0];
+		const auto r1 = src_j.du[0];
+		const auto r2 = src_k.du[2];
+		const auto r3 = src_j.du[2];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVILVH_D(cpu_t& cpu, la_instruction instr) {
-		// XVILVH.D: LASX vector interleave high double-word (256-bit)
-		// Interleaves the high 128-bit double-words from two 256-bit vectors
+		// XVILVH.D: interleave high doublewords, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4109,12 +4105,15 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Interleave: dst[0] = src_k[2], dst[1] = src_j[2], dst[2] = src_k[3], dst[3] = src_j[3]
-		// For LASX (256-bit), we interleave the high 2 double-words (128-bit) from each source
-		dst.du[0] = src_k.du[2];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[3];
-		dst.du[3] = src_j.du[3];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.du[1];
+		const auto r1 = src_j.du[1];
+		const auto r2 = src_k.du[3];
+		const auto r3 = src_j.du[3];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPERMI_D(cpu_t& cpu, la_instruction instr) {
@@ -4145,9 +4144,7 @@ struct InstrImpl {
 	}
 
 	static void XVPACKEV_D(cpu_t& cpu, la_instruction instr) {
-		// XVPACKEV.D: LASX vector pack even double-word (256-bit)
-		// Packs even-numbered elements (0, 2) from each source
-		// dst[0] = xj[0], dst[1] = xk[0], dst[2] = xj[2], dst[3] = xk[2]
+		// XVPACKEV.D: pack even doublewords, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4156,17 +4153,19 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_k.du[0];
-		dst.du[2] = src_j.du[2];
-		dst.du[3] = src_k.du[2];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.du[0];
+		const auto r1 = src_j.du[0];
+		const auto r2 = src_k.du[2];
+		const auto r3 = src_j.du[2];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPACKOD_D(cpu_t& cpu, la_instruction instr) {
-		// XVPACKOD.D: LASX vector pack odd double-word (256-bit)
-		// Packs odd-numbered elements (1, 3) from each source
-		// dst[0] = xj[1], dst[1] = xk[1], dst[2] = xj[3], dst[3] = xk[3]
+		// XVPACKOD.D: pack odd doublewords, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4175,17 +4174,19 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pack odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_k.du[1];
-		dst.du[2] = src_j.du[3];
-		dst.du[3] = src_k.du[3];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.du[1];
+		const auto r1 = src_j.du[1];
+		const auto r2 = src_k.du[3];
+		const auto r3 = src_j.du[3];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPICKEV_D(cpu_t& cpu, la_instruction instr) {
-		// XVPICKEV.D: LASX vector pick even double-word (256-bit)
-		// Picks even elements from both sources in a different pattern than PACKEV
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xk[0], dst[3] = xk[2]
+		// XVPICKEV.D: pick even doublewords, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4194,18 +4195,19 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even elements (0 and 2) from both sources
-		dst.du[0] = src_j.du[0];
-		dst.du[1] = src_j.du[2];
-		dst.du[2] = src_k.du[0];
-		dst.du[3] = src_k.du[2];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.du[0];
+		const auto r1 = src_j.du[0];
+		const auto r2 = src_k.du[2];
+		const auto r3 = src_j.du[2];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVPICKEV_W(cpu_t& cpu, la_instruction instr) {
-		// XVPICKEV.W: LASX vector pick even word (256-bit)
-		// Picks even-indexed words from both sources
-		// dst[0] = xj[0], dst[1] = xj[2], dst[2] = xj[4], dst[3] = xj[6]
-		// dst[4] = xk[0], dst[5] = xk[2], dst[6] = xk[4], dst[7] = xk[6]
+		// XVPICKEV.W: pick even words, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4214,21 +4216,27 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick even words (indices 0, 2, 4, 6) from both sources
-		dst.w[0] = src_j.w[0];
-		dst.w[1] = src_j.w[2];
-		dst.w[2] = src_j.w[4];
-		dst.w[3] = src_j.w[6];
-		dst.w[4] = src_k.w[0];
-		dst.w[5] = src_k.w[2];
-		dst.w[6] = src_k.w[4];
-		dst.w[7] = src_k.w[6];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.wu[0];
+		const auto r1 = src_k.wu[2];
+		const auto r2 = src_j.wu[0];
+		const auto r3 = src_j.wu[2];
+		const auto r4 = src_k.wu[4];
+		const auto r5 = src_k.wu[6];
+		const auto r6 = src_j.wu[4];
+		const auto r7 = src_j.wu[6];
+		dst.wu[0] = r0;
+		dst.wu[1] = r1;
+		dst.wu[2] = r2;
+		dst.wu[3] = r3;
+		dst.wu[4] = r4;
+		dst.wu[5] = r5;
+		dst.wu[6] = r6;
+		dst.wu[7] = r7;
 	}
 
 	static void XVPICKOD_D(cpu_t& cpu, la_instruction instr) {
-		// XVPICKOD.D: LASX vector pick odd double-word (256-bit)
-		// Picks odd elements from both sources
-		// dst[0] = xj[1], dst[1] = xj[3], dst[2] = xk[1], dst[3] = xk[3]
+		// XVPICKOD.D: pick odd doublewords, within each 128-bit lane
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
@@ -4237,11 +4245,15 @@ struct InstrImpl {
 		const auto& src_k = cpu.registers().getvr(xk);
 		auto& dst = cpu.registers().getvr(xd);
 
-		// Pick odd elements (1 and 3) from both sources
-		dst.du[0] = src_j.du[1];
-		dst.du[1] = src_j.du[3];
-		dst.du[2] = src_k.du[1];
-		dst.du[3] = src_k.du[3];
+		// Read all inputs first to handle register aliasing
+		const auto r0 = src_k.du[1];
+		const auto r1 = src_j.du[1];
+		const auto r2 = src_k.du[3];
+		const auto r3 = src_j.du[3];
+		dst.du[0] = r0;
+		dst.du[1] = r1;
+		dst.du[2] = r2;
+		dst.du[3] = r3;
 	}
 
 	static void XVLDI(cpu_t& cpu, la_instruction instr) {
-- 
2.43.0


From a9f6cb20ec53e0a74a638e16324b003b202a2f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:21 +0000
Subject: [PATCH 12/73] fix: floating-point compare conditions

xvfcmp returned all-zeroes for half of the conditions; the others raised
illegal opcode.
---
 lib/libloong/la_instr_impl.hpp | 206 +++------------------------------
 1 file changed, 19 insertions(+), 187 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 9f8e042..5f49e23 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -22,6 +22,20 @@ struct InstrImpl {
 		return static_cast<I>(value);
 	}
 
+	// Floating-point comparison condition (fcond). Apart from bit 0, which selects
+	// the signaling variant, each bit adds one relation: less-than (2), equal (4),
+	// unordered (8) and less-or-greater-than (16).
+	template <typename F>
+	static bool compare_floats(uint32_t cond, F a, F b, la_instruction instr) {
+		if ((cond & 0x10) && (cond & 0xE) != 0 && (cond & 0xE) != 0x4 && (cond & 0xE) != 0x8) {
+			throw MachineException(ILLEGAL_OPCODE, "FCMP: Unknown condition code", instr.whole);
+		}
+		return ((cond & 0x02) && a < b)
+			|| ((cond & 0x04) && a == b)
+			|| ((cond & 0x08) && (std::isnan(a) || std::isnan(b)))
+			|| ((cond & 0x10) && (a < b || a > b));
+	}
+
 	// === Arithmetic Instructions ===
 
 	static void ADD_W(cpu_t& cpu, la_instruction instr) {
@@ -925,47 +939,7 @@ struct InstrImpl {
 		float fj_val = vr_j.f[0];
 		float fk_val = vr_k.f[0];
 
-		bool is_unordered = std::isnan(fj_val) || std::isnan(fk_val);
-		bool result = false;
-
-		switch (cond) {
-			case 0x02: // CLT - (Quiet) Less Than (ordered)
-			case 0x03: // SLT - Signaling Less Than (ordered)
-				result = !is_unordered && (fj_val < fk_val);
-				break;
-			case 0x04: // CEQ - Equal (ordered)
-			case 0x05: // SEQ - Signaling Equal (ordered)
-				result = !is_unordered && (fj_val == fk_val);
-				break;
-			case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-			case 0x07: // SLE - Signaling Less or Equal (ordered)
-				result = !is_unordered && (fj_val <= fk_val);
-				break;
-			case 0x8:  // CUN  - (Quiet) Incomparable
-			case 0x9:  // SUN  - Signaling Incomparable
-				result = is_unordered;
-				break;
-			case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-			case 0x0F: // SULE - Signaling Unordered or Less or Equal
-				result = is_unordered || (fj_val <= fk_val);
-				break;
-			case 0x14: // COR - (Quiet) Ordered
-				result = !is_unordered;
-				break;
-			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-			case 0x19: // SUNE - Signaling Unordered or Not Equal
-				result = is_unordered || (fj_val != fk_val);
-				break;
-			case 0xA: // CULT - Less than or incomparable
-			case 0xB: // SULT - Signaling Less than or incomparable
-				result = (fj_val < fk_val) || is_unordered;
-				break;
-			default:
-				// Unknown condition code - this should not happen in normal execution
-				throw MachineException(ILLEGAL_OPCODE,
-					"FCMP.COND.S: Unknown condition code", instr.whole);
-		}
-
+		const bool result = compare_floats(cond, fj_val, fk_val, instr);
 		cpu.registers().set_cf(cd, result ? 1 : 0);
 	}
 
@@ -982,47 +956,7 @@ struct InstrImpl {
 		double fj_val = vr_j.df[0];
 		double fk_val = vr_k.df[0];
 
-		bool is_unordered = std::isnan(fj_val) || std::isnan(fk_val);
-		bool result = false;
-
-		switch (cond) {
-			case 0x02: // CLT - (Quiet) Less Than (ordered)
-			case 0x03: // SLT - Signaling Less Than (ordered)
-				result = !is_unordered && (fj_val < fk_val);
-				break;
-			case 0x04: // CEQ - Equal (ordered)
-			case 0x05: // SEQ - Signaling Equal (ordered)
-				result = !is_unordered && (fj_val == fk_val);
-				break;
-			case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-			case 0x07: // SLE - Signaling Less or Equal (ordered)
-				result = !is_unordered && (fj_val <= fk_val);
-				break;
-			case 0x8:  // CUN  - (Quiet) Incomparable
-			case 0x9:  // SUN  - Signaling Incomparable
-				result = is_unordered;
-				break;
-			case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-			case 0x0F: // SULE - Signaling Unordered or Less or Equal
-				result = is_unordered || (fj_val <= fk_val);
-				break;
-			case 0x14: // COR - (Quiet) Ordered
-				result = !is_unordered;
-				break;
-			case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-			case 0x19: // SUNE - Signaling Unordered or Not Equal
-				result = is_unordered || (fj_val != fk_val);
-				break;
-			case 0xA: // CULT - Less than or incomparable
-			case 0xB: // SULT - Signaling Less than or incomparable
-				result = (fj_val < fk_val) || is_unordered;
-				break;
-			default:
-				// Unknown condition code - this should not happen in normal execution
-				throw MachineException(ILLEGAL_OPCODE,
-					"FCMP.COND.D: Unknown condition code", instr.whole);
-		}
-
+		const bool result = compare_floats(cond, fj_val, fk_val, instr);
 		cpu.registers().set_cf(cd, result ? 1 : 0);
 	}
 
@@ -1038,62 +972,11 @@ struct InstrImpl {
 		const auto& src2 = cpu.registers().getvr(vk);
 		auto& dst = cpu.registers().getvr(vd);
 
-		// For each double element: if src1[i] < src2[i] is TRUE, set to all 1s; if FALSE, set to 0
+		// For each double element: all ones if the condition holds, otherwise zero
 		for (int i = 0; i < 2; i++) {
 			double val1 = src1.df[i];
 			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					throw MachineException(ILLEGAL_OPCODE,
-						"VFCMP.COND.D: Unsupported condition code", instr.whole);
-			}
+			dst.du[i] = compare_floats(cond, val1, val2, instr) ? UINT64_MAX : 0;
 		}
 		// LSX instructions zero-extend to 256 bits (clear upper 128 bits for LASX compatibility)
 		dst.du[2] = 0;
@@ -2207,58 +2090,7 @@ struct InstrImpl {
 		for (int i = 0; i < 4; i++) {
 			double val1 = src1.df[i];
 			double val2 = src2.df[i];
-			switch (cond) {
-				case 0x02: // CLT - (Quiet) Less Than (ordered)
-				case 0x03: // SLT - Signaling Less Than (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 < val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x04: // CEQ - Equal (ordered)
-				case 0x05: // SEQ - Signaling Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 == val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x06: // CLE - (Quiet) Less or Equal (ordered)
-				case 0x07: // SLE - Signaling Less or Equal (ordered)
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x0E: // CULE - (Quiet) Unordered or Less or Equal
-				case 0x0F: // SULE - Signaling Unordered or Less or Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 <= val2) ? UINT64_MAX : 0;
-					}
-					break;
-				case 0x14: // COR - (Quiet) Ordered
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = 0;
-					} else {
-						dst.du[i] = UINT64_MAX;
-					}
-					break;
-				case 0x18: // CUNE - (Quiet) Unordered or Not Equal
-				case 0x19: // SUNE - Signaling Unordered or Not Equal
-					if (std::isnan(val1) || std::isnan(val2)) {
-						dst.du[i] = UINT64_MAX;
-					} else {
-						dst.du[i] = (val1 != val2) ? UINT64_MAX : 0;
-					}
-					break;
-				default:
-					dst.du[i] = 0;
-					break;
-			}
+			dst.du[i] = compare_floats(cond, val1, val2, instr) ? UINT64_MAX : 0;
 		}
 	}
 
-- 
2.43.0


From cac70bd159aab241b23e8c2da71de44ba16ae27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 13/73] fix: decode scalar instructions by their full opcode

slli.w/srli.w/srai.w/rotri.d, fcmp, the fcsr/cf moves, the indexed loads and
stores and the am*_db instructions were recognised by partial masks, so that
other encodings executed as the wrong instruction.
---
 lib/libloong/la64.cpp | 94 +++++++++++++++++--------------------------
 1 file changed, 37 insertions(+), 57 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 87590e6..8bcf5a6 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -529,17 +529,17 @@ namespace loongarch
 			if (op17 == Opcode::DIV_DU) return DECODED_INSTR(DIV_DU);
 			if (op17 == Opcode::MOD_DU) return DECODED_INSTR(MOD_DU);
 
-			// Shift immediate instructions (use bits[31:16])
+			// Shift immediate instructions
+			// .D uses bits[31:16] (ui6), .W uses bits[31:15] (ui5)
 			{
 				uint32_t op16 = (instr.whole >> 16) & 0xFFFF;
-				if (op16 == 0x0040) return DECODED_INSTR(SLLI_W);
+				if (op17 == 0x00408000) return DECODED_INSTR(SLLI_W);
 				if (op16 == 0x0041) return DECODED_INSTR(SLLI_D);
-				if (op16 == 0x0044) return DECODED_INSTR(SRLI_W);
+				if (op17 == 0x00448000) return DECODED_INSTR(SRLI_W);
 				if (op16 == 0x0045) return DECODED_INSTR(SRLI_D);
-				if (op16 == 0x0048) return DECODED_INSTR(SRAI_W);
+				if (op17 == 0x00488000) return DECODED_INSTR(SRAI_W);
 				if (op16 == 0x0049) return DECODED_INSTR(SRAI_D);
-				// ROTRI.D uses bits[31:16] for opcode (16-bit opcode = 0x0024)
-				if (op16 == 0x0024) return DECODED_INSTR(ROTRI_D);
+				if (op16 == 0x004D) return DECODED_INSTR(ROTRI_D);
 			}
 
 			// ROTRI.W: bits[31:15] = 0x00099 (format DJUk5)
@@ -602,15 +602,15 @@ namespace loongarch
 				// MOVGR2FR.D: bits[31:10] = 0x452A
 				if (op22_val == 0x452A) return DECODED_INSTR(MOVGR2FR_D);
 				// MOVFCSR2GR: bits[31:10] = 0x4532
-				if (op22_val == 0x4532) return DECODED_INSTR(MOVFCSR2GR);
+				if (op22_val == 0x4532 && (instr.whole & 0x380) == 0) return DECODED_INSTR(MOVFCSR2GR);
 				// MOVFR2CF: bits[31:10] = 0x4534
-				if (op22_val == 0x4534) return DECODED_INSTR(MOVFR2CF);
+				if (op22_val == 0x4534 && (instr.whole & 0x18) == 0) return DECODED_INSTR(MOVFR2CF);
 				// MOVCF2FR: bits[31:10] = 0x4535
-				if (op22_val == 0x4535) return DECODED_INSTR(MOVCF2FR);
+				if (op22_val == 0x4535 && (instr.whole & 0x300) == 0) return DECODED_INSTR(MOVCF2FR);
 				// MOVGR2CF: bits[31:10] = 0x4536
-				if (op22_val == 0x4536) return DECODED_INSTR(MOVGR2CF);
+				if (op22_val == 0x4536 && (instr.whole & 0x18) == 0) return DECODED_INSTR(MOVGR2CF);
 				// MOVCF2GR: bits[31:10] = 0x4537
-				if (op22_val == 0x4537) return DECODED_INSTR(MOVCF2GR);
+				if (op22_val == 0x4537 && (instr.whole & 0x300) == 0) return DECODED_INSTR(MOVCF2GR);
 				// FABS.D: bits[31:10] = 0x4502
 				if (op22_val == 0x4502) return DECODED_INSTR(FABS_D);
 				// FABS.S: bits[31:10] = 0x4501
@@ -732,28 +732,15 @@ namespace loongarch
 		// FSEL: FP conditional select - bits[31:18] = 0x0340
 		if (((instr.whole >> 18) & 0x3FFF) == 0x0340) return DECODED_INSTR(FSEL);
 
-		// FCMP instructions: bits[31:22] = 0x030, bit 21 determines S vs D, bits[19:15] = condition code
+		// FCMP instructions: bits[31:20] = 0x0C1 (.s) or 0x0C2 (.d), bits[19:15] = condition code
 		{
-			uint32_t op10 = (instr.whole >> 22) & 0x3FF;
-			if (op10 == 0x030) {
-				// Bit 21: 0 = single precision (.s), 1 = double precision (.d)
-				bool is_double = (instr.whole >> 21) & 1;
-				return is_double ? DECODED_INSTR(FCMP_COND_D) : DECODED_INSTR(FCMP_COND_S);
-			}
-		}
-		// VFCMP instructions: bits[31:21] = 0x063, bits[20:15] = condition code
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x063) {
-				return DECODED_INSTR(VFCMP_COND_D);
-			}
-		}
-		// XVFCMP instructions: bits[31:21] = 0x065, bits[20:15] = condition code (LASX)
-		{
-			uint32_t op11 = (instr.whole >> 21) & 0x7FF;
-			if (op11 == 0x065) {
-				return DECODED_INSTR(XVFCMP_COND_D);
-			}
+			uint32_t op12 = (instr.whole >> 20) & 0xFFF;
+			if (op12 == 0x0C1 && (instr.whole & 0x18) == 0) return DECODED_INSTR(FCMP_COND_S);
+			if (op12 == 0x0C2 && (instr.whole & 0x18) == 0) return DECODED_INSTR(FCMP_COND_D);
+			// VFCMP.cond.D: bits[31:20] = 0x0C6, bits[19:15] = condition code
+			if (op12 == 0x0C6) return DECODED_INSTR(VFCMP_COND_D);
+			// XVFCMP.cond.D: bits[31:20] = 0x0CA, bits[19:15] = condition code (LASX)
+			if (op12 == 0x0CA) return DECODED_INSTR(XVFCMP_COND_D);
 		}
 			break;
 
@@ -869,27 +856,27 @@ namespace loongarch
 			if ((instr.whole & 0xFFFF8000) == 0x38240000) return DECODED_INSTR(LDX_HU);
 			if ((instr.whole & 0xFFFF8000) == 0x38280000) return DECODED_INSTR(LDX_WU);
 
-			// STX instructions: bits [31:18] identify the operation
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
-			if ((instr.whole & 0xFFFC0000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
+			// STX instructions: bits [31:15] identify the operation
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_B) return DECODED_INSTR(STX_B);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_H) return DECODED_INSTR(STX_H);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_W) return DECODED_INSTR(STX_W);
+			if ((instr.whole & 0xFFFF8000) == Opcode::STX_D) return DECODED_INSTR(STX_D);
 			// FLDX_D: Floating-point indexed load (double)
-			if ((instr.whole & 0xFFFC0000) == 0x38340000) return DECODED_INSTR(FLDX_D);
+			if ((instr.whole & 0xFFFF8000) == 0x38340000) return DECODED_INSTR(FLDX_D);
 			// FLDX_S: Floating-point indexed load (single) - 0x38300000
-			if ((instr.whole & 0xFFFC0000) == 0x38300000) return DECODED_INSTR(FLDX_S);
+			if ((instr.whole & 0xFFFF8000) == 0x38300000) return DECODED_INSTR(FLDX_S);
 			// FSTX_D: Floating-point indexed store
-			if ((instr.whole & 0xFFFC0000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
+			if ((instr.whole & 0xFFFF8000) == Opcode::FSTX_D) return DECODED_INSTR(FSTX_D);
 			// FSTX_S: Floating-point indexed store (single) - 0x38380000
-			if ((instr.whole & 0xFFFC0000) == 0x38380000) return DECODED_INSTR(FSTX_S);
+			if ((instr.whole & 0xFFFF8000) == 0x38380000) return DECODED_INSTR(FSTX_S);
 			// VLDX: Vector indexed load (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38400000) return DECODED_INSTR(VLDX);
+			if ((instr.whole & 0xFFFF8000) == 0x38400000) return DECODED_INSTR(VLDX);
 			// VSTX: Vector indexed store (LSX 128-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38440000) return DECODED_INSTR(VSTX);
+			if ((instr.whole & 0xFFFF8000) == 0x38440000) return DECODED_INSTR(VSTX);
 			// XVLDX: Vector indexed load (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x38480000) return DECODED_INSTR(XVLDX);
+			if ((instr.whole & 0xFFFF8000) == 0x38480000) return DECODED_INSTR(XVLDX);
 			// XVSTX: Vector indexed store (LASX 256-bit)
-			if ((instr.whole & 0xFFFC0000) == 0x384C0000) return DECODED_INSTR(XVSTX);
+			if ((instr.whole & 0xFFFF8000) == 0x384C0000) return DECODED_INSTR(XVSTX);
 
 			// Atomic instructions: bits [31:20] = 0x386
 			// Empirical encoding: bits[19:16] encode both operation and ordering
@@ -905,27 +892,20 @@ namespace loongarch
 				bool is_64bit = ((instr.whole >> 15) & 1);
 
 				// Decode by bits[19:16] value
-				// Based on empirical observation:
-				// AMSWAP: 0 (no ord), 9 (_db)
-				// AMADD: 1 (no ord), 10 (_db)
-				// Assuming pattern continues: AMAND: 2, AMOR: 3, etc.
+				// AMSWAP: 0 (no ord), 9 (_db), AMADD: 1/10, AMAND: 2/11, AMOR: 3/12, AMXOR: 4/13
 				switch (op_ord) {
 					case 0: case 9: // AMSWAP
 						return is_64bit ? DECODED_INSTR(AMSWAP_D) : DECODED_INSTR(AMSWAP_W);
 					case 1: case 10: // AMADD
 						return is_64bit ? DECODED_INSTR(AMADD_D) : DECODED_INSTR(AMADD_W);
-					case 2: case 11: // AMAND (guessed)
+					case 2: case 11: // AMAND
 						return is_64bit ? DECODED_INSTR(AMAND_D) : DECODED_INSTR(AMAND_W);
-					case 3: case 12: // AMOR (guessed)
+					case 3: case 12: // AMOR
 						return is_64bit ? DECODED_INSTR(AMOR_D) : DECODED_INSTR(AMOR_W);
-					// TODO: Verify AMXOR, AMMAX, AMMIN encodings when encountered
+					case 4: case 13: // AMXOR
+						return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
 				}
 			}
-			// AMXOR: bits [31:20] = 0x387
-			if ((instr.whole & 0xFFF00000) == 0x38700000) {
-				bool is_64bit = ((instr.whole >> 15) & 1);
-				return is_64bit ? DECODED_INSTR(AMXOR_D) : DECODED_INSTR(AMXOR_W);
-			}
 			break;
 		case 0x0B: // VLD / VST / XVLD / XVST instructions (op6 = 0x0B for 0x2Cxxxxxx)
 			// Example VLD: 2c0041a2
-- 
2.43.0


From b6a45d678510addc2bb07aa9d3ac9deb24aa3fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 14/73] fix: decode LSX instructions by their full opcode

---
 lib/libloong/la64.cpp | 50 +++++++++++++++++++++----------------------
 1 file changed, 25 insertions(+), 25 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 8bcf5a6..8a91fb4 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -935,19 +935,21 @@ namespace loongarch
 				// VORI.B: Vector OR immediate (byte) - bits[31:18] = 0x1CF5
 				if ((instr.whole >> 18) == 0x1CF5) return DECODED_INSTR(VORI_B);
 				// VSLLI: Vector Shift Left Logical Immediate - bits[31:15] identify size
-				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:15] = 0xE660
-				// VPCNT: Vector Population Count - bits[31:15] = 0xE538, bits[14:10] select size
+				// VBITREVI.D: Vector Bit Reverse Immediate (double) - bits[31:16] = 0x7319
+				// VPCNT: Vector Population Count - bits[31:12] = 0x729C2, bits[11:10] select size
 				uint32_t bits15 = instr.whole >> 15;
 				if (bits15 == 0xE658) {
 					// vslli.b and vslli.h both have bits[31:15] = 0xe658, differentiate by bit 14
+					// (vslli.b also has bit 13 set)
 					uint32_t bit14 = (instr.whole >> 14) & 1;
-					if (bit14 == 0) return DECODED_INSTR(VSLLI_B);
-					else return DECODED_INSTR(VSLLI_H);
+					uint32_t bit13 = (instr.whole >> 13) & 1;
+					if (bit14) return DECODED_INSTR(VSLLI_H);
+					if (bit13) return DECODED_INSTR(VSLLI_B);
 				}
 				if (bits15 == 0xE659) return DECODED_INSTR(VSLLI_W);
-				if (bits15 == 0xE65A) return DECODED_INSTR(VSLLI_D);
-				if (bits15 == 0xE660) return DECODED_INSTR(VBITREVI_D);
-				if (bits15 == 0xE538) {
+				if (top16 == 0x732D) return DECODED_INSTR(VSLLI_D); // ui6 uses bit 15
+				if (top16 == 0x7319) return DECODED_INSTR(VBITREVI_D); // ui6 uses bit 15
+				if ((instr.whole >> 12) == 0x729C2) {
 					uint32_t size = (instr.whole >> 10) & 0x3;
 					if (size == 0) return DECODED_INSTR(VPCNT_B);
 					if (size == 1) return DECODED_INSTR(VPCNT_H);
@@ -1000,8 +1002,8 @@ namespace loongarch
 					return DECODED_INSTR(VILVL_D);
 				}
 				// VILVH.D: Vector Interleave High Double-word
-				// bits[31:15] = 0xE23F
-				if ((instr.whole >> 15) == 0xE23F) {
+				// bits[31:15] = 0xE23B
+				if ((instr.whole >> 15) == 0xE23B) {
 					return DECODED_INSTR(VILVH_D);
 				}
 				// VPICKEV.W: Vector Pick Even Word
@@ -1010,34 +1012,32 @@ namespace loongarch
 					return DECODED_INSTR(VPICKEV_W);
 				}
 				// VPICKVE2GR instructions: signed (0x72EF) and unsigned (0x72F3)
-				// bits[15:12] determine size: 0x8=B, 0xC=H, 0xE=W, 0xF=D
+				// bits[15:11] determine size: 10xxx=B, 110xx=H, 1110x=W, 11110=D
 				if (top16 == 0x72EF) {
 					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
+					if ((subop & 0xC) == 0x8) return DECODED_INSTR(VPICKVE2GR_B);
+					if ((subop & 0xE) == 0xC) return DECODED_INSTR(VPICKVE2GR_H);
 					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_W);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_D);
+					if (subop == 0xF && !(instr.whole & 0x800)) return DECODED_INSTR(VPICKVE2GR_D);
 				}
 				if (top16 == 0x72F3) {
 					uint32_t subop = (instr.whole >> 12) & 0xF;
-					if (subop == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
-					if (subop == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
+					if ((subop & 0xC) == 0x8) return DECODED_INSTR(VPICKVE2GR_BU);
+					if ((subop & 0xE) == 0xC) return DECODED_INSTR(VPICKVE2GR_HU);
 					if (subop == 0xE) return DECODED_INSTR(VPICKVE2GR_WU);
-					if (subop == 0xF) return DECODED_INSTR(VPICKVE2GR_DU);
+					if (subop == 0xF && !(instr.whole & 0x800)) return DECODED_INSTR(VPICKVE2GR_DU);
 				}
-				// VREPLVEI.D: 0x72F7xxxx (Vector Replicate Vector Element Immediate - double)
-				if (top16 == 0x72F7) {
+				// VREPLVEI.D: bits[31:11] = 0x72F7F000 >> 11 (Vector Replicate Vector Element Immediate - double)
+				if ((instr.whole & 0xFFFFF800) == 0x72F7F000) {
 					return DECODED_INSTR(VREPLVEI_D);
 				}
 				if (top16 == 0x729C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x28) return DECODED_INSTR(VSETANYEQZ_B);
+					const bool is_cd = (instr.whole & 0x18) == 0; // 3-bit FCC destination
+					if (subop == 0x28 && is_cd) return DECODED_INSTR(VSETANYEQZ_B);
+					if (subop == 0x2C && is_cd) return DECODED_INSTR(VSETALLNEZ_B);
 					if (subop == 0x18) return DECODED_INSTR(VMSKNZ_B);
 				}
-				if (top16 == 0x729D) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x18) return DECODED_INSTR(VSETALLNEZ_B);
-				}
 				// VREPLGR2VR: 0x729F0xxx
 				// .B (subop=0x00), .H (subop=0x01), .W (subop=0x02), .D (subop=0x03)
 				if (top16 == 0x729F) {
@@ -1180,8 +1180,8 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE534) {
 					return DECODED_INSTR(VFRSTPI_B);
 				}
-				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:15] = 0xE53C
-				if ((instr.whole >> 15) == 0xE53C) {
+				// VFTINTRZ.W.S / VFTINTRZ.L.D: bits[31:11] = 0x729E4800 >> 11
+				if ((instr.whole & 0xFFFFF800) == 0x729E4800) {
 					// Differentiate by bit 10
 					if ((instr.whole >> 10) & 1) {
 						return DECODED_INSTR(VFTINTRZ_L_D);
-- 
2.43.0


From 38d47d9e79bf00a61435fc1d772bb2e68c7f96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:28 +0000
Subject: [PATCH 15/73] fix: decode LASX instructions by their full opcode

---
 lib/libloong/la64.cpp | 86 +++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 44 deletions(-)

diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 8a91fb4..2bde1e6 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -1218,25 +1218,25 @@ namespace loongarch
 
 				// XVMSKNZ.B: 0x769C6xxx (bits[31:16] = 0x769C, bits[15:10] = 0x18)
 				// XVSETANYEQZ.B: 0x769CAxx (bits[31:16] = 0x769C, bits[15:10] = 0x28)
-				// XVSETEQZ.V: 0x769CBxxx (bits[31:16] = 0x769C, bits[15:10] = 0x2C)
+				// XVSETEQZ.V: 0x769C98xx (bits[31:16] = 0x769C, bits[15:10] = 0x26)
 				if (top16 == 0x769C) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x18) return DECODED_INSTR(XVMSKNZ_B);
-					if (subop == 0x28) return DECODED_INSTR(XVSETANYEQZ_B);
-					if (subop == 0x2C) return DECODED_INSTR(XVSETEQZ_V);
+					const bool is_cd = (instr.whole & 0x18) == 0; // 3-bit FCC destination
+					if (subop == 0x28 && is_cd) return DECODED_INSTR(XVSETANYEQZ_B);
+					if (subop == 0x26 && is_cd) return DECODED_INSTR(XVSETEQZ_V);
 				}
 				// XVREPLGR2VR.B: 0x769F0xxx (bits[31:16] = 0x769F, bits[15:10] = 0x00)
 				if (top16 == 0x769F) {
 					uint32_t subop = (instr.whole >> 10) & 0x3F;
 					if (subop == 0x00) return DECODED_INSTR(XVREPLGR2VR_B);
 				}
-				// XVPICKVE.W: 0x7703Dxxx (bits[31:16] = 0x7703, bits[15:10] = 0x34)
-				if (top16 == 0x7703) {
-					uint32_t subop = (instr.whole >> 10) & 0x3F;
-					if (subop == 0x34) return DECODED_INSTR(XVPICKVE_W);
+				// XVPICKVE.W: bits[31:13] = 0x7703C000 >> 13, bits[12:10] = index
+				if ((instr.whole & 0xFFFFE000) == 0x7703C000) {
+					return DECODED_INSTR(XVPICKVE_W);
 				}
-				// XVSEQ.B: bits[31:15] = 0xEE00
-				if ((instr.whole >> 15) == 0xEE00) {
+				// XVSEQ.B: bits[31:15] = 0xE800
+				if ((instr.whole >> 15) == 0xE800) {
 					return DECODED_INSTR(XVSEQ_B);
 				}
 				// XVXOR.V: bits[31:15] = 0xEA4E
@@ -1267,13 +1267,13 @@ namespace loongarch
 				if ((instr.whole >> 15) == 0xE8EC) {
 					return DECODED_INSTR(XVMIN_BU);
 				}
-				// XVMAX.BU: bits[31:15] = 0xE8ED
-				if ((instr.whole >> 15) == 0xE8ED) {
+				// XVMAX.BU: bits[31:15] = 0xE8E8
+				if ((instr.whole >> 15) == 0xE8E8) {
 					return DECODED_INSTR(XVMAX_BU);
 				}
-				// XVPICKVE2GR.W: bits[31:18] = 0x1DBB (0x76EFxxxx)
+				// XVPICKVE2GR.W: bits[31:13] = 0x76EFC000 >> 13, bits[12:10] = index
 				// Pick word element from LASX vector to general register
-				if ((instr.whole >> 18) == 0x1DBB) {
+				if ((instr.whole & 0xFFFFE000) == 0x76EFC000) {
 					return DECODED_INSTR(XVPICKVE2GR_W);
 				}
 				// XVPERMI.Q: LASX permute quadword - bits[31:18] = 0x1DFB
@@ -1293,46 +1293,44 @@ namespace loongarch
 				// XVFSUB.D: LASX vector floating-point subtract (double) - bits[31:15] = 0xEA66
 				// Opcode: 0x75330000 >> 15 = 0xEA66
 				if ((instr.whole >> 15) == 0xEA66) return DECODED_INSTR(XVFSUB_D);
-				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:15] = 0xEE32
-				// Opcode: 0x77190000 >> 15 = 0xEE32
-				if ((instr.whole >> 15) == 0xEE32) return DECODED_INSTR(XVBITREVI_D);
+				// XVBITREVI.D: LASX vector bit reverse immediate (double) - bits[31:16] = 0x7719
+				if (top16 == 0x7719) return DECODED_INSTR(XVBITREVI_D);
 				// XVREPLVE.D: LASX vector replicate element (double) - bits[31:15] = 0xEA47
 				// Opcode: 0x75238000 >> 15 = 0xEA47
 				if ((instr.whole >> 15) == 0xEA47) return DECODED_INSTR(XVREPLVE_D);
-				// XVORI.B: LASX vector OR immediate byte - bits[31:15] = 0xEFA8
-				// Opcode: 0x77d40000 >> 15 = 0xEFA8
-				if ((instr.whole >> 15) == 0xEFA8) return DECODED_INSTR(XVORI_B);
-				// XVXORI.B: LASX vector XOR immediate byte - bits[31:15] = 0xEFB0
-				// Opcode: 0x77d80000 >> 15 = 0xEFB0
-				if ((instr.whole >> 15) == 0xEFB0) return DECODED_INSTR(XVXORI_B);
+				// XVORI.B: LASX vector OR immediate byte - bits[31:18] = 0x1DF5
+				// Opcode: 0x77d40000 >> 18 = 0x1DF5
+				if ((instr.whole >> 18) == 0x1DF5) return DECODED_INSTR(XVORI_B);
+				// XVXORI.B: LASX vector XOR immediate byte - bits[31:18] = 0x1DF6
+				// Opcode: 0x77d80000 >> 18 = 0x1DF6
+				if ((instr.whole >> 18) == 0x1DF6) return DECODED_INSTR(XVXORI_B);
 				// XVILVL.D: LASX vector interleave low double-word - bits[31:15] = 0xEA37
 				// Opcode: 0x751b8000 >> 15 = 0xEA37
 				if ((instr.whole >> 15) == 0xEA37) return DECODED_INSTR(XVILVL_D);
-				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3F
-				// Opcode: 0x751f8000 >> 15 = 0xEA3F
-				if ((instr.whole >> 15) == 0xEA3F) return DECODED_INSTR(XVILVH_D);
-				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dc1
-				// Opcode: 0x7707e000 >> 18 = 0x1dc1
-				if ((instr.whole >> 18) == 0x1dc1) return DECODED_INSTR(XVPERMI_D);
-				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea66
-				// Opcode: 0x75330000 >> 15 = 0xea66
-				if ((instr.whole >> 15) == 0xea66) return DECODED_INSTR(XVPACKEV_D);
-				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xee33
-				// Opcode: 0x77198000 >> 15 = 0xee33
-				if ((instr.whole >> 15) == 0xee33) return DECODED_INSTR(XVPACKOD_D);
-				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xee07
-				// Opcode: 0x7703c000 >> 15 = 0xee07
-				if ((instr.whole >> 15) == 0xee07) return DECODED_INSTR(XVPICKEV_D);
+				// XVILVH.D: LASX vector interleave high double-word - bits[31:15] = 0xEA3B
+				// Opcode: 0x751d8000 >> 15 = 0xEA3B
+				if ((instr.whole >> 15) == 0xEA3B) return DECODED_INSTR(XVILVH_D);
+				// XVPERMI.D: LASX vector permute double-word - bits[31:18] = 0x1dfa
+				// Opcode: 0x77e80000 >> 18 = 0x1dfa
+				if ((instr.whole >> 18) == 0x1dfa) return DECODED_INSTR(XVPERMI_D);
+				// XVPACKEV.D: LASX vector pack even double-word - bits[31:15] = 0xea2f
+				// Opcode: 0x75178000 >> 15 = 0xea2f
+				if ((instr.whole >> 15) == 0xea2f) return DECODED_INSTR(XVPACKEV_D);
+				// XVPACKOD.D: LASX vector pack odd double-word - bits[31:15] = 0xea33
+				// Opcode: 0x75198000 >> 15 = 0xea33
+				if ((instr.whole >> 15) == 0xea33) return DECODED_INSTR(XVPACKOD_D);
+				// XVPICKEV.D: LASX vector pick even double-word - bits[31:15] = 0xea3f
+				// Opcode: 0x751f8000 >> 15 = 0xea3f
+				if ((instr.whole >> 15) == 0xea3f) return DECODED_INSTR(XVPICKEV_D);
 				// XVPICKEV.W: LASX vector pick even word - bits[31:15] = 0xea3e
 				// Opcode: 0x751f0000 >> 15 = 0xea3e
 				if ((instr.whole >> 15) == 0xea3e) return DECODED_INSTR(XVPICKEV_W);
-				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xee0f
-				// Opcode: 0x77078000 >> 15 = 0xee0f
-				if ((instr.whole >> 15) == 0xee0f) return DECODED_INSTR(XVPICKOD_D);
-				// XVLDI: LASX load immediate - bits[31:23] = 0xEF
-				// Opcode: 0x77e00000 >> 23 = 0xEF (format: XdSj13 with 13-bit immediate)
-				// Note: Checked last as catch-all for 0x77exxxxx / 0x77fxxxxx after specific instructions
-				if ((instr.whole >> 23) == 0xEF) {
+				// XVPICKOD.D: LASX vector pick odd double-word - bits[31:15] = 0xea43
+				// Opcode: 0x75218000 >> 15 = 0xea43
+				if ((instr.whole >> 15) == 0xea43) return DECODED_INSTR(XVPICKOD_D);
+				// XVLDI: LASX load immediate - bits[31:18] = 0x1DF8
+				// Opcode: 0x77e00000 >> 18 = 0x1DF8 (format: XdSj13 with 13-bit immediate)
+				if ((instr.whole >> 18) == 0x1DF8) {
 					return DECODED_INSTR(XVLDI);
 				}
 			}
-- 
2.43.0


From 236ee2786e6d52a2eb3ff93088ff2d0acce04976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 16/73] fix: tailcall dispatch resumes behind a system call
 like the other dispatchers

---
 lib/libloong/tailcall_dispatch.cpp            | 2 +-
 lib/libloong/tailcall_inaccurate_dispatch.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index e52cccb..93f8ed6 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -143,7 +143,7 @@ namespace loongarch
 		// System calls can change PC
 		if (LA_UNLIKELY(pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
 			OVERFLOW_CHECKED_JUMP();
 		}
 		NEXT_BLOCK(4);
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index 64b17cf..ffe9535 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -122,12 +122,14 @@ namespace loongarch
 		cpu.registers().pc = pc;
 		// Invoke system call
 		cpu.machine().system_call(cpu.reg(REG_A7));
-		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0))
+		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0)) {
+			pc = cpu.registers().pc + 4;
 			return RETURN_VALUES();
+		}
 		// System calls can change PC
 		if (LA_UNLIKELY(pc != cpu.registers().pc))
 		{
-			pc = cpu.registers().pc;
+			pc = cpu.registers().pc + 4;
 			UNCHECKED_JUMP();
 		}
 		NEXT_BLOCK_UNCHECKED(4);
-- 
2.43.0


From d82d85f808514a9362f3f3fae9752148e3bbe3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:16 +0000
Subject: [PATCH 17/73] fix: disassembler operands and register names

---
 lib/libloong/la_instr_printers.hpp | 116 +++++++++++++++--------------
 1 file changed, 59 insertions(+), 57 deletions(-)

diff --git a/lib/libloong/la_instr_printers.hpp b/lib/libloong/la_instr_printers.hpp
index 4d25d27..233b9b7 100644
--- a/lib/libloong/la_instr_printers.hpp
+++ b/lib/libloong/la_instr_printers.hpp
@@ -490,22 +490,22 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	}
 
 	static int FLDX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.d $fa%u, %s, %s",
+		return snprintf(buf, len, "fldx.d $f%u, %s, %s",
 			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FLDX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fldx.s $fa%u, %s, %s",
+		return snprintf(buf, len, "fldx.s $f%u, %s, %s",
 			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.d $fa%u, %s, %s",
+		return snprintf(buf, len, "fstx.d $f%u, %s, %s",
 			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
 	static int FSTX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) LA_COLD_PATH() {
-		return snprintf(buf, len, "fstx.s $fa%u, %s, %s",
+		return snprintf(buf, len, "fstx.s $f%u, %s, %s",
 			instr.r3.rd, reg_name(instr.r3.rj), reg_name(instr.r3.rk));
 	}
 
@@ -709,7 +709,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	// === System Instructions ===
 
 	static int SYSCALL(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-		const uint32_t imm = instr.whole & 0xFFF;
+		const uint32_t imm = instr.whole & 0x7FFF;
 		return snprintf(buf, len, "syscall 0x%x", imm);
 	}
 
@@ -1008,25 +1008,25 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2GR_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.s %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.s %s, $f%u", reg_name(rd), fj);
 	}
 
 	static int MOVFR2GR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t rd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2gr.d %s, $fa%u", reg_name(rd), fj);
+		return snprintf(buf, len, "movfr2gr.d %s, $f%u", reg_name(rd), fj);
 	}
 
 	static int MOVGR2FR_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.w $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.w $f%u, %s", fd, reg_name(rj));
 	}
 
 	static int MOVGR2FR_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t rj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movgr2fr.d $fa%u, %s", fd, reg_name(rj));
+		return snprintf(buf, len, "movgr2fr.d $f%u, %s", fd, reg_name(rj));
 	}
 
 	static int MOVFCSR2GR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1038,13 +1038,13 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 	static int MOVFR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t cd = instr.whole & 0x7;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "movfr2cf $fcc%u, $fa%u", cd, fj);
+		return snprintf(buf, len, "movfr2cf $fcc%u, $f%u", cd, fj);
 	}
 
 	static int MOVCF2FR(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		return snprintf(buf, len, "movcf2fr $fa%u, $fcc%u", fd, cj);
+		return snprintf(buf, len, "movcf2fr $f%u, $fcc%u", fd, cj);
 	}
 
 	static int MOVGR2CF(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1074,7 +1074,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.s $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.s $fcc%u, $f%u, $f%u", mnemonic, cd, fj, fk);
 	}
 
 	static int FCMP_COND_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1083,7 +1083,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		const uint32_t cond = (instr.whole >> 15) & 0x1F;
 		const char* mnemonic = cond_names(cond);
-		return snprintf(buf, len, "fcmp.%s.d $fcc%u, $fa%u, $fa%u", mnemonic, cd, fj, fk);
+		return snprintf(buf, len, "fcmp.%s.d $fcc%u, $f%u, $f%u", mnemonic, cd, fj, fk);
 	}
 
 	static int FSEL(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1091,37 +1091,37 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		uint32_t fk = (instr.whole >> 10) & 0x1F;
 		uint32_t ca = (instr.whole >> 15) & 0x7;
-		return snprintf(buf, len, "fsel $fa%u, $fa%u, $fa%u, $fcc%u", fd, fj, fk, ca);
+		return snprintf(buf, len, "fsel $f%u, $f%u, $f%u, $fcc%u", fd, fj, fk, ca);
 	}
 
 	static int FABS_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.d $f%u, $f%u", fd, fj);
 	}
 
 	static int FABS_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fabs.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fabs.s $f%u, $f%u", fd, fj);
 	}
 
 	static int FNEG_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fneg.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fneg.d $f%u, $f%u", fd, fj);
 	}
 
 	static int FMOV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.d $f%u, $f%u", fd, fj);
 	}
 
 	static int FMOV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fmov.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fmov.s $f%u, $f%u", fd, fj);
 	}
 
 	static int FCLASS(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1130,151 +1130,151 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
 		// Extract size from opcode: bit[10] (0=d, 1=s)
 		uint32_t size_idx = (instr.whole >> 10) & 0x1;
-		return snprintf(buf, len, "fclass.%c $fa%u, $fa%u", sizes[size_idx], fd, fj);
+		return snprintf(buf, len, "fclass.%c $f%u, $f%u", sizes[size_idx], fd, fj);
 	}
 
 	static int FFINT_D_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.l $f%u, $f%u", fd, fj);
 	}
 
 	static int FFINT_D_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.d.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.d.w $f%u, $f%u", fd, fj);
 	}
 
 	static int FFINT_S_W(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.w $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.w $f%u, $f%u", fd, fj);
 	}
 
 	static int FFINT_S_L(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ffint.s.l $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ffint.s.l $f%u, $f%u", fd, fj);
 	}
 
 	static int FCVT_S_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.s.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.s.d $f%u, $f%u", fd, fj);
 	}
 
 	static int FCVT_D_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "fcvt.d.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "fcvt.d.s $f%u, $f%u", fd, fj);
 	}
 
 	static int FTINTRZ_W_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.s $f%u, $f%u", fd, fj);
 	}
 
 	static int FTINTRZ_W_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.w.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.w.d $f%u, $f%u", fd, fj);
 	}
 
 	static int FTINTRZ_L_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.s $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.s $f%u, $f%u", fd, fj);
 	}
 
 	static int FTINTRZ_L_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.whole & 0x1F;
 		uint32_t fj = (instr.whole >> 5) & 0x1F;
-		return snprintf(buf, len, "ftintrz.l.d $fa%u, $fa%u", fd, fj);
+		return snprintf(buf, len, "ftintrz.l.d $f%u, $f%u", fd, fj);
 	}
 
 	static int FADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.d $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fadd.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fadd.s $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMUL_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.d $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMUL_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmul.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmul.s $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.d $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fsub.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fsub.s $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FDIV_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.d $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FDIV_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fdiv.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fdiv.s $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMAX_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.s $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMIN_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.s $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.s $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMAX_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmax.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmax.d $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMIN_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
 		uint32_t fd = instr.r3.rd;
 		uint32_t fj = instr.r3.rj;
 		uint32_t fk = instr.r3.rk;
-		return snprintf(buf, len, "fmin.d $fa%u, $fa%u, $fa%u", fd, fj, fk);
+		return snprintf(buf, len, "fmin.d $f%u, $f%u, $f%u", fd, fj, fk);
 	}
 
 	static int FMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1282,7 +1282,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.d $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1290,7 +1290,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.d $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1298,7 +1298,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmadd.s $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1306,7 +1306,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fmsub.s $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FNMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1314,7 +1314,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.s $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FNMADD_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1322,7 +1322,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmadd.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmadd.d $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FNMSUB_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1330,7 +1330,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.s $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.s $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int FNMSUB_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1338,7 +1338,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t fj = instr.r4.rj;
 		uint32_t fk = instr.r4.rk;
 		uint32_t fa = instr.r4.ra;
-		return snprintf(buf, len, "fnmsub.d $fa%u, $fa%u, $fa%u, $fa%u", fd, fj, fk, fa);
+		return snprintf(buf, len, "fnmsub.d $f%u, $f%u, $f%u, $f%u", fd, fj, fk, fa);
 	}
 
 	static int VFRSTPI_B(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
@@ -1379,12 +1379,14 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		// Determine size suffix and immediate width
 		const char* size_suffix;
 		uint32_t imm_mask;
-		switch (subop) {
-			case 0x8: size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF; break;
-			case 0xC: size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7; break;
-			case 0xE: size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3; break;
-			case 0xF: size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1; break;
-			default: size_suffix = ".?"; imm_mask = 0xF; break;
+		if (subop < 0xC) { // 10xx: byte, 4-bit index
+			size_suffix = (top16 == 0x72EF) ? ".b" : ".bu"; imm_mask = 0xF;
+		} else if (subop < 0xE) { // 110x: half-word, 3-bit index
+			size_suffix = (top16 == 0x72EF) ? ".h" : ".hu"; imm_mask = 0x7;
+		} else if (subop == 0xE) { // 1110: word, 2-bit index
+			size_suffix = (top16 == 0x72EF) ? ".w" : ".wu"; imm_mask = 0x3;
+		} else { // 1111: double-word, 1-bit index
+			size_suffix = (top16 == 0x72EF) ? ".d" : ".du"; imm_mask = 0x1;
 		}
 
 		uint32_t imm = (instr.whole >> 10) & imm_mask;
@@ -1900,7 +1902,7 @@ static int SRA_D(char* buf, size_t len, const cpu_t&, la_instruction instr, addr
 		uint32_t xd = instr.whole & 0x1F;
 		uint32_t xj = (instr.whole >> 5) & 0x1F;
 		uint32_t xk = (instr.whole >> 10) & 0x1F;
-		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, $r%u", xd, xk, xj);
+		return snprintf(buf, len, "xvreplve.d $xr%u, $xr%u, $r%u", xd, xj, xk);
 	}
 
 	static int XVFMADD_S(char* buf, size_t len, const cpu_t&, la_instruction instr, addr_t) {
-- 
2.43.0


From 201540ea269caf3e87f387a7090bc7363cf4c61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 18/73] fix: breakpoints are system calls with any code in
 every dispatcher

---
 lib/libloong/decoder_cache.cpp                | 10 +++++-----
 lib/libloong/la64.cpp                         |  2 +-
 lib/libloong/tailcall_dispatch.cpp            |  2 +-
 lib/libloong/tailcall_inaccurate_dispatch.cpp |  2 +-
 lib/libloong/threaded_dispatch.cpp            |  2 +-
 lib/libloong/threaded_inaccurate_dispatch.cpp |  2 +-
 lib/libloong/threaded_rewriter.cpp            |  2 ++
 7 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 82da4e3..c6ed825 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -31,9 +31,9 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			return true;
 		}
 
-		// System calls (exact match required)
-		if (instr == Opcode::SYSCALL) return true;
-		if (instr == Opcode::BREAK) return true;
+		// System calls and breakpoints, with any code
+		if ((instr & 0xFFFFFC00) == Opcode::SYSCALL) return true;
+		if ((instr & 0xFFFF8000) == Opcode::BREAK) return true;
 
 		return false;
 	}
@@ -48,8 +48,8 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 		// System calls
 		case InstrId::SYSCALL:
 			return LA64_BC_SYSCALL;
-		case InstrId::BREAK:
-			return LA64_BC_FUNCTION;
+		case InstrId::BREAK: // A system call with a fixed number
+			return LA64_BC_SYSCALL;
 		case InstrId::NOP:
 			return LA64_BC_NOP;
 
diff --git a/lib/libloong/la64.cpp b/lib/libloong/la64.cpp
index 2bde1e6..e505989 100644
--- a/lib/libloong/la64.cpp
+++ b/lib/libloong/la64.cpp
@@ -447,7 +447,7 @@ namespace loongarch
 		uint32_t op17 = instr.whole & 0xFFFF8000;
 
 		// System instructions (Ud15)
-		if ((instr.whole & 0xFFFFFC00) == Opcode::BREAK) return DECODED_INSTR(BREAK);
+		if ((instr.whole & 0xFFFF8000) == Opcode::BREAK) return DECODED_INSTR(BREAK);
 		if ((instr.whole & 0xFFFFFC00) == Opcode::SYSCALL) return DECODED_INSTR(SYSCALL);
 		if ((instr.whole & 0xFFFFFC00) == Opcode::RDTIME_D) return DECODED_INSTR(RDTIME_D);
 		if ((instr.whole & 0xFFFFFC00) == Opcode::CPUCFG) return DECODED_INSTR(CPUCFG);
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 93f8ed6..2cbc0ba 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -137,7 +137,7 @@ namespace loongarch
 		// Make the instruction counter visible
 		counter.apply(MACHINE());
 		// Invoke system call
-		cpu.machine().system_call(cpu.reg(REG_A7));
+		cpu.machine().system_call(d->instr == Opcode::BREAK ? 0 : cpu.reg(REG_A7));
 		// Restore counters
 		counter.retrieve_counters(MACHINE());
 		// System calls can change PC
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index ffe9535..ab971b7 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -121,7 +121,7 @@ namespace loongarch
 		// Make the current PC visible
 		cpu.registers().pc = pc;
 		// Invoke system call
-		cpu.machine().system_call(cpu.reg(REG_A7));
+		cpu.machine().system_call(d->instr == Opcode::BREAK ? 0 : cpu.reg(REG_A7));
 		if (LA_UNLIKELY(cpu.machine().max_instructions() == 0)) {
 			pc = cpu.registers().pc + 4;
 			return RETURN_VALUES();
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 4778a9b..2fe0566 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -79,7 +79,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 {
 	REGISTERS().pc = pc;
 	MACHINE().set_max_instructions(max_counter);
-	MACHINE().system_call(REG(REG_A7));
+	MACHINE().system_call(DECODER().instr == Opcode::BREAK ? 0 : REG(REG_A7));
 	// Restore counters
 	max_counter = MACHINE().max_instructions();
 
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index b0caabb..92006dc 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -76,7 +76,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 {
 	REGISTERS().pc = pc;
 	MACHINE().set_max_instructions(max_counter);
-	MACHINE().system_call(REG(REG_A7));
+	MACHINE().system_call(DECODER().instr == Opcode::BREAK ? 0 : REG(REG_A7));
 	// Restore counters
 	max_counter = MACHINE().max_instructions();
 
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index ba45b85..36beb4a 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -22,6 +22,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 	switch (bytecode) {
 		// Bytecodes with optimized field access
 		case LA64_BC_SYSCALL: {
+			if ((original.whole & 0xFFFF8000) == Opcode::BREAK)
+				return Opcode::BREAK;
 			const auto syscall_num = original.whole & 0x3FF;
 			if (syscall_num != 0) {
 				bytecode = LA64_BC_SYSCALLIMM;
-- 
2.43.0


From 40b426d65b7d5ff73855c1e637ab2645f30aa770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:04 +0000
Subject: [PATCH 19/73] fix: conditional branches reach their full encoded
 range

---
 lib/libloong/threaded_bytecodes.hpp | 19 +++++++++----------
 lib/libloong/threaded_rewriter.cpp  |  2 +-
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index 7d1e6da..d19ea60 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -410,14 +410,13 @@ namespace loongarch
 	union FasterLA64_RI21_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rj;      // bits [4:0] - register to test (or condition flag for BC*)
-			uint8_t padding; // bits [12:5] - unused, available for future use
-			int16_t offset;  // bits [28:13] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rj : 8;      // bits [7:0] - register to test (or condition flag for BC*)
+			int32_t  offset : 24; // bits [31:8] - pre-computed offset (sign-extended, already << 2)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// A 21-bit instruction offset fits in 24 bits
+			this->offset = offs;
 		}
 	};
 
@@ -425,14 +424,14 @@ namespace loongarch
 	union FasterLA64_RI16_Branch {
 		uint32_t whole;
 		struct {
-			uint8_t rd;      // bits [4:0] - first register
-			uint8_t rj;      // bits [9:5] - second register
-			int16_t offset;  // bits [25:10] - pre-computed offset (sign-extended, already << 2)
+			uint32_t rd : 5;      // bits [4:0] - first register
+			uint32_t rj : 5;      // bits [9:5] - second register
+			int32_t  offset : 22; // bits [31:10] - pre-computed offset (sign-extended, already << 2)
 		};
 		void set_offset(int32_t offs) {
 			// The offset has already been << 2 in the optimizer
-			// Store it as a 16-bit value (will be valid if within segment)
-			this->offset = (int16_t)offs;
+			// A 16-bit instruction offset fits in 22 bits
+			this->offset = offs;
 		}
 	};
 
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 36beb4a..d45a864 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -768,7 +768,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			auto fi = *(FasterLA64_RI16_Branch *)&instruction_bits;
 			fi.rd = original.ri16.rd;
 			fi.rj = original.ri16.rj;
-			fi.offset = original.ri16.imm;
+			fi.offset = InstructionHelpers::sign_extend_16(original.ri16.imm);
 			return fi.whole;
 		} break;
 		case LA64_BC_BEQZ:
-- 
2.43.0


From efa56ae0c0aab60776cff20a242efad7ce000aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 20/73] fix: indirect jumps to misaligned addresses raise an
 exception

---
 lib/libloong/bytecode_impl.cpp | 4 ++++
 lib/libloong/la_instr_impl.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 0d8a934..fd1bcc5 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -545,6 +545,10 @@ INSTRUCTION(LA64_BC_JIRL, la64_jirl)
 	if (fi.rd != 0) {
 		REG(fi.rd) = pc + 4;
 	}
+	if (LA_UNLIKELY(target & 0x3)) {
+		REGISTERS().pc = target;
+		CPU().trigger_exception(MISALIGNED_INSTRUCTION, target);
+	}
 	NEXT_BLOCK(target - pc);
 }
 
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 5f49e23..1a9c480 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -561,6 +561,10 @@ struct InstrImpl {
 		if (instr.ri16.rd != 0) {
 			cpu.reg(instr.ri16.rd) = next_pc;
 		}
+		if (target & 0x3) {
+			cpu.registers().pc = target;
+			cpu.trigger_exception(MISALIGNED_INSTRUCTION, target);
+		}
 		cpu.registers().pc = target-4;
 	}
 
-- 
2.43.0


From 808fdeea6dff82e6604a5da1b6cbf7661e4f419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 21/73] fix: count all instructions of blocks longer than 255
 instructions

---
 lib/libloong/decoder_cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 9fab1cc..dc66f67 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -16,7 +16,7 @@ namespace loongarch
 
 		// Calculate number of instructions in this block (LoongArch = 4 bytes per instruction)
 		// This includes the current (diverging) instruction: block instructions + 1
-		uint8_t instruction_count() const noexcept { return (block_bytes / 4) + 1; }
+		unsigned instruction_count() const noexcept { return (block_bytes / 4u) + 1u; }
 
 		// Bytecode accessors for threaded dispatch
 		uint8_t get_bytecode() const noexcept { return bytecode; }
-- 
2.43.0


From 345bc57e4cd17edb6bf7111f6f47ac068a48c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:04 +0000
Subject: [PATCH 22/73] fix: instruction limits and counters are visible
 outside the dispatch loop

---
 lib/libloong/tailcall_dispatch.cpp | 2 +-
 lib/libloong/threaded_dispatch.cpp | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 2cbc0ba..5429955 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -211,7 +211,7 @@ namespace loongarch
 		const address_t new_pc = EXECUTE_INSTR();
 
 		cpu.registers().pc = new_pc;
-		MACHINE().set_instruction_counter(counter.value());
+		counter.apply(MACHINE());
 
 		// Machine stopped normally?
 		return counter.max() == 0;
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 2fe0566..f0ab851 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -37,7 +37,7 @@ namespace loongarch
 	bool CPU::simulate(address_t pc, uint64_t inscounter, uint64_t maxcounter)
 	{
 		constexpr bool TRACE_DISPATCH = false;  // Disable for normal execution
-		machine().set_max_instructions(UINT64_MAX);
+		machine().set_max_instructions(maxcounter);
 
 		// Include computed goto table
 		#include "threaded_bytecode_array.hpp"
@@ -78,6 +78,7 @@ continue_segment:
 INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 {
 	REGISTERS().pc = pc;
+	MACHINE().set_instruction_counter(counter);
 	MACHINE().set_max_instructions(max_counter);
 	MACHINE().system_call(DECODER().instr == Opcode::BREAK ? 0 : REG(REG_A7));
 	// Restore counters
@@ -95,6 +96,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 {
 	REGISTERS().pc = pc;
+	MACHINE().set_instruction_counter(counter);
 	MACHINE().set_max_instructions(max_counter);
 	// Execute syscall from verified immediate
 	MACHINE().system_call(DECODER().instr);
@@ -135,6 +137,7 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 {
 	REGISTERS().pc = pc + 4;
 	machine().set_instruction_counter(counter);
+	machine().stop();
 	return true;
 }
 
-- 
2.43.0


From fee706e4f6ec845b2d98825b303e4e27ed0ffc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:15 +0000
Subject: [PATCH 23/73] fix: a run that reached its instruction limit is not
 stopped

---
 lib/libloong/debug.cpp   | 2 +-
 lib/libloong/machine.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 4d708d4..ae93f56 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -9,7 +9,7 @@ namespace loongarch
 	void DebugMachine::simulate(uint64_t max_instructions)
 	{
 		this->machine.set_max_instructions(max_instructions);
-		while (!this->machine.stopped()) {
+		while (this->machine.instruction_counter() < this->machine.max_instructions()) {
 			if (this->verbose_instructions)
 				print_instruction();
 			this->machine.cpu.step_one();
diff --git a/lib/libloong/machine.hpp b/lib/libloong/machine.hpp
index 5ad2615..474f91e 100644
--- a/lib/libloong/machine.hpp
+++ b/lib/libloong/machine.hpp
@@ -55,7 +55,7 @@ namespace loongarch
 		bool simulate(uint64_t max_instructions = UINT64_MAX, uint64_t counter = 0);
 
 		void stop() noexcept { m_max_instructions = 0; }
-		bool stopped() const noexcept { return m_counter >= m_max_instructions; }
+		bool stopped() const noexcept { return m_max_instructions == 0; }
 		bool instruction_limit_reached() const noexcept { return m_counter >= m_max_instructions && m_max_instructions != 0; }
 
 		// Instruction counting
-- 
2.43.0


From b662b23e6aca902842a1e418ddc18da8e1afc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 24/73] fix: fcc branches use their full offset in the precise
 interpreter

---
 lib/libloong/la_instr_impl.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 1a9c480..ebde833 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -2890,11 +2890,7 @@ struct InstrImpl {
 		// BCNEZ: Branch if condition flag is not equal to zero
 		// Format: 0x48xxxxxx
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		// Sign extend
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) != 0) {
 			cpu.increment_pc(offset-4);
@@ -2904,10 +2900,7 @@ struct InstrImpl {
 	static void BCEQZ(cpu_t& cpu, la_instruction instr) {
 		// BCEQZ: Branch if condition flag equals zero
 		uint32_t cj = (instr.whole >> 5) & 0x7;
-		int32_t offset = ((instr.whole >> 10) & 0xFFFF) << 2;
-		if (offset & 0x20000) {
-			offset |= 0xFFFC0000;
-		}
+		auto offset = InstructionHelpers::sign_extend_21(instr.ri21.offs_lo, instr.ri21.offs_hi) << 2;
 
 		if (cpu.registers().cf(cj) == 0) {
 			cpu.increment_pc(offset-4);
-- 
2.43.0


From 230fd63a76f12e7877addf5bd9c70fb3a9023188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 25/73] fix: branches out of the execute segment and blocks
 beyond 64 KiB

---
 lib/libloong/bytecode_impl.cpp           | 10 ++++++++++
 lib/libloong/decoder_cache.cpp           | 10 +++++++++-
 lib/libloong/tailcall_bytecode_array.hpp |  1 +
 lib/libloong/threaded_bytecode_array.hpp |  1 +
 lib/libloong/threaded_bytecodes.hpp      |  2 ++
 lib/libloong/threaded_rewriter.cpp       | 12 ++++++++----
 6 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index fd1bcc5..84cd4ab 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1045,6 +1045,16 @@ INSTRUCTION(LA64_BC_FUNCTION2, execute_function_extended)
 	NEXT_INSTR();
 }
 
+// LA64_BC_FUNCJUMP: Ends a block with an instruction that has no faster bytecode,
+// such as branches out of the execute segment. Continues wherever it leaves PC.
+INSTRUCTION(LA64_BC_FUNCJUMP, execute_function_jump)
+{
+	REGISTERS().pc = pc;
+	CPU().execute(la_instruction{DECODER().instr});
+	const auto next_pc = REGISTERS().pc + 4;
+	NEXT_BLOCK(next_pc - pc);
+}
+
 // LA64_BC_TRANSLATOR is implemented in each dispatch file separately
 
 INSTRUCTION(LA64_BC_LIVEPATCH, execute_livepatch) {
diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index c6ed825..4d90351 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -233,7 +233,15 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			const address_t pc = exec_begin + (i * sizeof(la_instruction));
 			cache[i].instr = segment->optimize_bytecode(cache[i].bytecode, pc, instr);
 
-			if (is_diverging_instruction(instr)) {
+			const bool diverging = is_diverging_instruction(instr) || cache[i].bytecode == LA64_BC_STOP;
+			// Blocks are limited by the size of block_bytes
+			const bool block_full = !diverging && accumulated_bytes + 4 > UINT16_MAX;
+			if (block_full) {
+				cache[i].bytecode = LA64_BC_FUNCJUMP;
+				cache[i].instr = instr;
+			}
+
+			if (diverging || block_full) {
 				// Diverging instruction: block_bytes = 0
 				cache[i].block_bytes = 0;
 				accumulated_bytes = 0;
diff --git a/lib/libloong/tailcall_bytecode_array.hpp b/lib/libloong/tailcall_bytecode_array.hpp
index 0909d7d..8b8963c 100644
--- a/lib/libloong/tailcall_bytecode_array.hpp
+++ b/lib/libloong/tailcall_bytecode_array.hpp
@@ -113,6 +113,7 @@
 
 [LA64_BC_FUNCTION]  = execute_decoded_function,
 [LA64_BC_FUNCTION2] = execute_function_extended,
+[LA64_BC_FUNCJUMP]  = execute_function_jump,
 [LA64_BC_SYSCALL]   = la64_syscall,
 [LA64_BC_SYSCALLIMM]= la64_syscall_imm,
 [LA64_BC_NOP]       = la64_nop,
diff --git a/lib/libloong/threaded_bytecode_array.hpp b/lib/libloong/threaded_bytecode_array.hpp
index 0340a6e..0e5e35a 100644
--- a/lib/libloong/threaded_bytecode_array.hpp
+++ b/lib/libloong/threaded_bytecode_array.hpp
@@ -114,6 +114,7 @@ static constexpr void *computed_opcode[] = {
 
 	[LA64_BC_FUNCTION]  = &&execute_decoded_function,
 	[LA64_BC_FUNCTION2] = &&execute_function_extended,
+	[LA64_BC_FUNCJUMP]  = &&execute_function_jump,
 	[LA64_BC_SYSCALL]   = &&la64_syscall,
 	[LA64_BC_SYSCALLIMM]= &&la64_syscall_imm,
 	[LA64_BC_NOP]       = &&la64_nop,
diff --git a/lib/libloong/threaded_bytecodes.hpp b/lib/libloong/threaded_bytecodes.hpp
index d19ea60..c2532e6 100644
--- a/lib/libloong/threaded_bytecodes.hpp
+++ b/lib/libloong/threaded_bytecodes.hpp
@@ -123,6 +123,7 @@ namespace loongarch
 		// Generic handlers
 		LA64_BC_FUNCTION,          // Non-PC-modifying instruction (simple handler call)
 		LA64_BC_FUNCTION2,         // Extended generic handler (for > 255 handlers)
+		LA64_BC_FUNCJUMP,          // Block-ending generic handler that may modify PC
 		LA64_BC_SYSCALL,           // System call (needs special handling)
 		LA64_BC_SYSCALLIMM,        // System call with immediate number (most likely patched in)
 		LA64_BC_NOP,               // No operation (DBAR, etc)
@@ -245,6 +246,7 @@ namespace loongarch
 		case LA64_BC_BGEU: return "BGEU";
 		case LA64_BC_FUNCTION: return "FUNCTION";
 		case LA64_BC_FUNCTION2: return "FUNCTION";
+		case LA64_BC_FUNCJUMP: return "FUNCJUMP";
 		case LA64_BC_SYSCALL: return "SYSCALL";
 		case LA64_BC_SYSCALLIMM: return "SYSCALL+IMM";
 		case LA64_BC_NOP: return "NOP";
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index d45a864..86b1fff 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -40,7 +40,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				// The offset is the optimized instruction
 				return (int32_t)offset;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside of the segment (if taken)
+				bytecode = LA64_BC_FUNCJUMP;
 				return original.whole;
 			}
 		} break;
@@ -60,7 +61,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside of the segment (if taken)
+				bytecode = LA64_BC_FUNCJUMP;
 				return original.whole;
 			}
 		} break;
@@ -782,7 +784,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside of the segment (if taken)
+				bytecode = LA64_BC_FUNCJUMP;
 				return original.whole;
 			}
 		} break;
@@ -797,7 +800,8 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 				fi.set_offset(offset);
 				return fi.whole;
 			} else {
-				bytecode = LA64_BC_INVALID;
+				// Outside of the segment (if taken)
+				bytecode = LA64_BC_FUNCJUMP;
 				return original.whole;
 			}
 		} break;
-- 
2.43.0


From 623a467828b2126b34bc4ab29f8db5509fdbffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:56 +0000
Subject: [PATCH 26/73] fix: loads into the zero register access memory in
 every dispatcher

---
 lib/libloong/decoder_cache.cpp     |  4 ++++
 lib/libloong/la_instr_impl.hpp     | 21 ++++++++++++------
 lib/libloong/threaded_rewriter.cpp | 34 ++++++++++++++++++------------
 3 files changed, 38 insertions(+), 21 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 4d90351..0934c08 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -232,6 +232,10 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 			// This avoids a check in the hot-path for rd != 0.
 			const address_t pc = exec_begin + (i * sizeof(la_instruction));
 			cache[i].instr = segment->optimize_bytecode(cache[i].bytecode, pc, instr);
+			// The optimizer may have fallen back to the generic handler
+			if (cache[i].bytecode == LA64_BC_FUNCTION) {
+				cache[i].bytecode += handler_idx >> 8;
+			}
 
 			const bool diverging = is_diverging_instruction(instr) || cache[i].bytecode == LA64_BC_STOP;
 			// Blocks are limited by the size of block_bytes
diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index ebde833..7da22ee 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -304,44 +304,51 @@ struct InstrImpl {
 
 	static void LD_B(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = (int64_t)cpu.memory().template read<int8_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int8_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void LD_H(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = (int64_t)cpu.memory().template read<int16_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int16_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void LD_W(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = (int64_t)cpu.memory().template read<int32_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (int64_t)cpu.memory().template read<int32_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void LD_D(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = cpu.memory().template read<int64_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = cpu.memory().template read<int64_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void LD_BU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint8_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void LD_HU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint16_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void LD_WU(cpu_t& cpu, la_instruction instr) {
 		auto addr = cpu.reg(instr.ri12.rj) + InstructionHelpers::sign_extend_12(instr.ri12.imm);
+		const uint64_t value = (uint64_t)cpu.memory().template read<uint32_t, true>(addr);
 		if (instr.ri12.rd != 0)
-			cpu.reg(instr.ri12.rd) = (uint64_t)cpu.memory().template read<uint32_t, true>(addr);
+			cpu.reg(instr.ri12.rd) = value;
 	}
 
 	static void PRELD(cpu_t&, la_instruction) {
diff --git a/lib/libloong/threaded_rewriter.cpp b/lib/libloong/threaded_rewriter.cpp
index 86b1fff..72a3f40 100644
--- a/lib/libloong/threaded_rewriter.cpp
+++ b/lib/libloong/threaded_rewriter.cpp
@@ -7,6 +7,12 @@
 		bytecode = LA64_BC_NOP;         \
 		return original.whole;		    \
 	}
+// Loads into the zero register can still fault
+#define FUNCTION_IF_RD_ZERO(fi_rd, bytecode) \
+	if (fi_rd == 0) {                   \
+		bytecode = LA64_BC_FUNCTION;    \
+		return original.whole;		    \
+	}
 #define INVALID_IF_RD_ZERO(fi_rd, bytecode) \
 	if (fi_rd == 0) {                   \
 		bytecode = LA64_BC_INVALID;     \
@@ -71,7 +77,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_MOVE: {
@@ -201,7 +207,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_ST_B: {
@@ -238,7 +244,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri14.rd;
 			fi.rj = original.ri14.rj;
 			fi.set_imm(original.ri14.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDPTR_W: {
@@ -246,7 +252,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri14.rd;
 			fi.rj = original.ri14.rj;
 			fi.set_imm(original.ri14.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STPTR_D: {
@@ -268,7 +274,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDX_D: {
@@ -276,7 +282,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_MASKEQZ: {
@@ -348,7 +354,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STX_H: {
@@ -363,7 +369,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_STX_W: {
@@ -386,7 +392,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_ADD_W: {
@@ -418,7 +424,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_BSTRINS_D: {
@@ -658,7 +664,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LDX_HU: {
@@ -667,7 +673,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_LD_WU: {
@@ -676,7 +682,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.ri12.rd;
 			fi.rj = original.ri12.rj;
 			fi.set_imm(original.ri12.imm);
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_PCADDU12I:
@@ -718,7 +724,7 @@ uint32_t DecodedExecuteSegment::optimize_bytecode(uint8_t& bytecode, address_t p
 			fi.rd = original.r3.rd;
 			fi.rj = original.r3.rj;
 			fi.rk = original.r3.rk;
-			NOP_IF_RD_ZERO(fi.rd, bytecode);
+			FUNCTION_IF_RD_ZERO(fi.rd, bytecode);
 			return fi.whole;
 		} break;
 		case LA64_BC_SLT: {
-- 
2.43.0


From 1db38dbb9a95dd59db5a42ab4e5dede0f1d40505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 27/73] fix: host memory accessors check the whole guest range

---
 lib/libloong/memory.cpp        |  5 ++---
 lib/libloong/memory.hpp        | 11 +++++++----
 lib/libloong/memory_inline.hpp |  7 ++++---
 lib/libloong/memory_rw.cpp     |  8 ++++----
 4 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index dd289d8..bdf1c37 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -262,9 +262,8 @@ void Memory::process_rela_section(size_t offset, size_t size, const MachineOptio
 
 size_t Memory::strlen(address_t addr, size_t maxlen) const
 {
-	const address_t end_addr = std::min(addr + maxlen, m_arena_size);
-	if (end_addr <= addr) return 0;
-	const address_t size = end_addr - addr;
+	const address_t max_size = (addr < m_arena_size) ? m_arena_size - addr : 0;
+	const address_t size = std::min<address_t>(maxlen, max_size);
 	const char* ptr = memarray<char>(addr, size);
 	return ::strnlen(ptr, size);
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index 8216215..dda04d5 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -145,11 +145,14 @@ namespace loongarch
 		void use_custom_arena(void* ptr, size_t size);
 		void free_arena();
 		static void free_arena_internal(uint8_t* arena, size_t size);
-		inline bool is_readable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
-			return addr - m_rodata_start < m_arena_end_sub_rodata;
+		// Check that the whole range [addr, addr + size) is readable or writable
+		inline bool is_readable(address_t addr, size_t size) const noexcept {
+			const address_t offset = addr - m_rodata_start;
+			return offset <= m_arena_end_sub_rodata && size <= m_arena_end_sub_rodata - offset;
 		}
-		inline bool is_writable(address_t addr, size_t size = sizeof(address_t)) const noexcept {
-			return addr - m_data_start < m_arena_end_sub_data;
+		inline bool is_writable(address_t addr, size_t size) const noexcept {
+			const address_t offset = addr - m_data_start;
+			return offset <= m_arena_end_sub_data && size <= m_arena_end_sub_data - offset;
 		}
 		[[noreturn]] LA_COLD_PATH() static void protection_fault(address_t addr, const char* message);
 	};
diff --git a/lib/libloong/memory_inline.hpp b/lib/libloong/memory_inline.hpp
index 661cd5f..42ffab5 100644
--- a/lib/libloong/memory_inline.hpp
+++ b/lib/libloong/memory_inline.hpp
@@ -36,7 +36,8 @@ inline void Memory::write(address_t addr, T value)
 			addr &= LA_MASKED_MEMORY_MASK;
 		}
 	} else {
-		if (LA_UNLIKELY(!is_writable(addr, sizeof(T)))) {
+		// The arena is over-allocated, so only the start needs checking
+		if (LA_UNLIKELY(addr - m_data_start >= m_arena_end_sub_data)) {
 			protection_fault(addr, "Write to read-only memory");
 		}
 	}
@@ -48,7 +49,7 @@ inline void Memory::write(address_t addr, T value)
 template <typename T>
 inline const T* Memory::memarray(address_t addr, size_t count) const
 {
-	if (LA_UNLIKELY(!is_readable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_readable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr);
 	}
 
@@ -58,7 +59,7 @@ inline const T* Memory::memarray(address_t addr, size_t count) const
 template <typename T>
 inline T* Memory::writable_memarray(address_t addr, size_t count)
 {
-	if (LA_UNLIKELY(!is_writable(addr, count * sizeof(T)))) {
+	if (LA_UNLIKELY(count > SIZE_MAX / sizeof(T) || !is_writable(addr, count * sizeof(T)))) {
 		throw MachineException(PROTECTION_FAULT, "Write to read-only memory", addr);
 	}
 
diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index aff9036..d2a0094 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -33,7 +33,7 @@ namespace loongarch
 			if (LA_UNLIKELY(src + len >= LA_MASKED_MEMORY_SIZE)) {
 				throw MachineException(PROTECTION_FAULT, "Read from out-of-bounds memory", src);
 			}
-		} else if (LA_UNLIKELY(src < m_rodata_start || src + len >= m_arena_size)) {
+		} else if (LA_UNLIKELY(!is_readable(src, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
@@ -51,10 +51,10 @@ namespace loongarch
 
 	int Memory::memcmp(address_t addr1, address_t addr2, size_t len) const
 	{
-		if (LA_UNLIKELY(addr1 < m_rodata_start || addr1 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr1, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr1);
 		}
-		if (LA_UNLIKELY(addr2 < m_rodata_start || addr2 + len >= m_arena_size)) {
+		if (LA_UNLIKELY(!is_readable(addr2, len))) {
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", addr2);
 		}
 
@@ -68,7 +68,7 @@ namespace loongarch
 
 	void Memory::copy_into_arena_unsafe(address_t dest, const void* src, size_t len)
 	{
-		if (LA_UNLIKELY(dest + len >= m_arena_size)) {
+		if (LA_UNLIKELY(dest > m_arena_size || len > m_arena_size - dest)) {
 			throw MachineException(PROTECTION_FAULT, "Write to out-of-bounds memory", dest);
 		}
 		std::memcpy(&m_arena[dest], src, len);
-- 
2.43.0


From f7f873af90b0a9293983a73fa235ebacb063cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 28/73] fix: a donated arena is not unmapped by the machine

---
 lib/libloong/memory.cpp | 8 ++++++--
 lib/libloong/memory.hpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index bdf1c37..91fcbe9 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -41,7 +41,7 @@ Memory::~Memory()
 	if (m_main_exec_segment && m_main_exec_segment->is_background_compiling()) {
 		// Delay freeing the arena until after compilation is done
 		// as the binary translator may be reading from it.
-		auto* arena_ptr = m_arena;
+		auto* arena_ptr = m_arena_is_custom ? nullptr : m_arena;
 		const auto arena_size = m_arena_size;
 		std::thread([seg = m_main_exec_segment, arena_ptr, arena_size]() {
 			seg->wait_for_compilation_complete();
@@ -110,6 +110,7 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	}
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
+	this->m_arena_is_custom = true;
 	this->m_arena_size = size - LA_OVER_ALLOCATE_SIZE;
 	this->m_arena_end_sub_rodata = this->m_arena_size - this->m_rodata_start;
 	this->m_arena_end_sub_data = this->m_arena_size - this->m_data_start;
@@ -126,8 +127,11 @@ void Memory::free_arena_internal(uint8_t* arena, size_t size)
 }
 void Memory::free_arena()
 {
-	free_arena_internal(this->m_arena, this->m_arena_size);
+	if (!this->m_arena_is_custom) {
+		free_arena_internal(this->m_arena, this->m_arena_size);
+	}
 	this->m_arena = nullptr;
+	this->m_arena_is_custom = false;
 	this->m_arena_size = 0;
 }
 
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index dda04d5..c50629f 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -101,6 +101,7 @@ namespace loongarch
 		// Single memory arena (mmap'd on POSIX, new[] otherwise)
 		uint8_t* m_arena = nullptr;
 		size_t m_arena_size = 0;
+		bool m_arena_is_custom = false; // Donated by the user, never freed here
 
 		// Memory region boundaries
 		address_t m_rodata_start = 0;  // Start of read-only data
-- 
2.43.0


From 8bcfe223e387a2f415381ece8ff80f25ea39587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 29/73] fix: the loader checks section, segment, brk and stack
 ranges and keeps every executable segment

---
 lib/libloong/elf_loader.cpp | 46 +++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/elf_loader.cpp b/lib/libloong/elf_loader.cpp
index 5fa7e69..be4a636 100644
--- a/lib/libloong/elf_loader.cpp
+++ b/lib/libloong/elf_loader.cpp
@@ -31,7 +31,7 @@ static TextSegmentBounds find_text_section(std::string_view binary, const Elf::H
 	const auto* shstrtab = reinterpret_cast<const Elf::SectionHeader*>(
 		binary.data() + ehdr->shoff + ehdr->shstrndx * sizeof(Elf::SectionHeader));
 
-	if (shstrtab->offset + shstrtab->size >= binary.size()) {
+	if (shstrtab->size > binary.size() || shstrtab->offset > binary.size() - shstrtab->size) {
 		return bounds;
 	}
 
@@ -129,7 +129,7 @@ void Memory::binary_loader(const MachineOptions& options)
 		if (phdr->type == Elf::PT_LOAD) {
 			address_t start = phdr->vaddr;
 			address_t end = phdr->vaddr + phdr->memsz;
-			if (end > options.memory_max || end < start) {
+			if (end > options.memory_max || end < start || phdr->filesz > phdr->memsz) {
 				throw MachineException(INVALID_PROGRAM, "ELF segment invalid", phdr->vaddr);
 			}
 			min_addr = std::min(min_addr, start);
@@ -153,6 +153,22 @@ void Memory::binary_loader(const MachineOptions& options)
 	// For statically linked binaries, phdr is at the file offset from the base
 	this->m_elf_phdr_addr = min_addr + ehdr->phoff;
 
+	// The heap, the BRK area and the stack follow the loaded data, each page aligned
+	const auto page_rounded = [](size_t size) { return (size + 4095) & ~size_t(4095); };
+	if (max_addr >= options.memory_max ||
+		options.brk_size > options.memory_max || options.stack_size > options.memory_max ||
+		page_rounded(options.brk_size) > options.memory_max - max_addr ||
+		page_rounded(options.stack_size) > options.memory_max - max_addr - page_rounded(options.brk_size)) {
+		if (options.verbose_loader) {
+			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
+			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)max_addr);
+			fprintf(stderr, "  memory_max: 0x%lx\n", (unsigned long)options.memory_max);
+		}
+		throw MachineException(OUT_OF_MEMORY,
+			"Not enough memory for stack and brk",
+			static_cast<uint64_t>(options.memory_max));
+	}
+
 	// Initialize heap at end of loaded data
 	this->m_heap_address = max_addr;
 	// mmap starts at end of brk and grows upward
@@ -164,17 +180,6 @@ void Memory::binary_loader(const MachineOptions& options)
 	const address_t stack_base = this->mmap_allocate(options.stack_size);
 	this->m_stack_address = stack_base + options.stack_size;
 
-	if (this->m_heap_address >= options.memory_max) {
-		if (options.verbose_loader) {
-			fprintf(stderr, "Error: Not enough memory for stack and brk:\n");
-			fprintf(stderr, "  heap_begin: 0x%lx\n", (unsigned long)this->m_heap_address);
-			fprintf(stderr, "  memory_max: 0x%lx\n", (unsigned long)options.memory_max);
-		}
-		throw MachineException(OUT_OF_MEMORY,
-			"Not enough memory for stack and brk",
-			static_cast<uint64_t>(options.memory_max));
-	}
-
 	if (options.custom_arena_pointer != nullptr &&
 		options.custom_arena_size >= options.memory_max) {
 		this->use_custom_arena(options.custom_arena_pointer, options.custom_arena_size);
@@ -225,7 +230,7 @@ void Memory::binary_loader(const MachineOptions& options)
 			// Execute segment creation
 			if (phdr->flags & Elf::PF_X) {
 				address_t exec_vaddr = phdr->vaddr;
-				size_t exec_size = phdr->filesz & ~size_t(3);
+				size_t exec_size = phdr->filesz;
 				size_t file_offset = phdr->offset;
 
 				// Use .text section bounds if available to avoid translating data
@@ -235,9 +240,9 @@ void Memory::binary_loader(const MachineOptions& options)
 					const address_t seg_end = phdr->vaddr + phdr->filesz;
 					const address_t text_end = text_bounds.start + text_bounds.size;
 
-					if (text_bounds.start >= seg_start && text_end <= seg_end) {
+					if (text_bounds.start >= seg_start && text_end >= text_bounds.start && text_end <= seg_end) {
 						exec_vaddr = text_bounds.start;
-						exec_size  = text_bounds.size & ~size_t(3); // Align to instruction boundary
+						exec_size  = text_bounds.size;
 						file_offset = phdr->offset + (text_bounds.start - seg_start);
 
 						if (options.verbose_loader) {
@@ -247,9 +252,16 @@ void Memory::binary_loader(const MachineOptions& options)
 					}
 				}
 
+				// Only whole instructions at aligned addresses are executable
+				const size_t misaligned = std::min<size_t>(exec_size, -exec_vaddr & 3);
+				exec_vaddr += misaligned;
+				file_offset += misaligned;
+				exec_size = (exec_size - misaligned) & ~size_t(3);
+
+				// The first executable segment is the main segment
 				create_execute_segment(options,
 					(const void*)(m_binary.data() + file_offset),
-					exec_vaddr, exec_size, true, false);
+					exec_vaddr, exec_size, m_main_exec_segment == nullptr, false);
 			}
 		}
 	}
-- 
2.43.0


From 7571421b85d3737c3d10428129d62f44e10a6893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:40 +0000
Subject: [PATCH 30/73] fix: symbol tables and donated arenas are bounded by
 the file and the program

---
 lib/libloong/memory.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index 91fcbe9..d6aaafd 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -108,6 +108,9 @@ void Memory::use_custom_arena(void* ptr, size_t size)
 	if (LA_MASKED_MEMORY_BITS != 0 && size < LA_MASKED_MEMORY_SIZE + LA_OVER_ALLOCATE_SIZE) {
 		throw MachineException(INVALID_PROGRAM, "Custom arena size too small for masked memory");
 	}
+	if (this->m_data_start > size - LA_OVER_ALLOCATE_SIZE) {
+		throw MachineException(INVALID_PROGRAM, "Custom arena size too small for the program");
+	}
 	if (this->m_arena) free_arena();
 	this->m_arena = (uint8_t*)ptr;
 	this->m_arena_is_custom = true;
@@ -197,8 +200,8 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
                                     const MachineOptions& options)
 {
 	// Validate section offsets and sizes
-	if (symtab->offset + symtab->size > m_binary.size() ||
-	    strtab->offset + strtab->size > m_binary.size()) {
+	if (symtab->size > m_binary.size() || symtab->offset > m_binary.size() - symtab->size ||
+	    strtab->size > m_binary.size() || strtab->offset > m_binary.size() - strtab->size) {
 		if (options.verbose_loader) {
 			fprintf(stderr, "Warning: Invalid symbol or string table section\n");
 		}
@@ -215,14 +218,16 @@ void Memory::parse_symbol_table(const Elf::SectionHeader* symtab,
 		// Only add function symbols with non-zero addresses
 		uint8_t type = Elf::ST_TYPE(sym.info);
 		if ((type == Elf::STT_FUNC || type == Elf::STT_OBJECT) && sym.value != 0) {
-			if (sym.name + 1 < strtab->size && sym.name + 1 > sym.name) {
+			if (sym.name < strtab->size) {
+				// The name ends at the string table, even when not zero-terminated
 				const char* name = string_table + sym.name;
 				if (name[0] != '\0') {
-					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size), name});
+					m_symbols.push_back({static_cast<address_t>(sym.value), static_cast<address_t>(sym.size),
+						std::string(name, ::strnlen(name, strtab->size - sym.name))});
 
 					if (false && options.verbose_loader) {
 						fprintf(stderr, "Symbol: 0x%lx %s (size=%lu)\n",
-							(unsigned long)sym.value, name, (unsigned long)sym.size);
+							(unsigned long)sym.value, m_symbols.back().name.c_str(), (unsigned long)sym.size);
 					}
 				}
 			}
-- 
2.43.0


From d68218b7d708e24d69a1aa18e5e8ac77ad25768b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:11 +0000
Subject: [PATCH 31/73] fix: calls follow the LoongArch ABI and preempt
 preserves the suspended program

---
 lib/libloong/machine_vmcall.hpp | 112 ++++++++++++++++++++++----------
 1 file changed, 76 insertions(+), 36 deletions(-)

diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index 68185a1..b98e5d3 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include "machine.hpp"
 #include "guest_datatypes.hpp"
+#include <array>
 #include <string>
 #include <vector>
 #include <type_traits>
@@ -30,18 +31,27 @@ namespace loongarch
 
 	// Setup call arguments according to LoongArch calling convention
 	template <typename... Args> constexpr
-	inline void setup_call(Machine& machine, address_t exit_addr, Args&&... args)
+	inline void setup_call(Machine& machine, address_t sp, address_t exit_addr, Args&&... args)
 	{		auto& cpu = machine.cpu;
 
 		// Set return address to exit function
 		cpu.reg(REG_RA) = exit_addr;
 
-		// Reset stack pointer to initial position
-		address_t sp = machine.memory.stack_address();
-
 		// Initialize argument registers
 		int iarg = REG_A0; // Integer argument registers: A0-A7
 		int farg = 0;      // Floating-point argument registers: FA0-FA7
+		// Arguments that don't fit in registers are passed on the stack
+		std::array<address_t, sizeof...(Args) + 1> stack_args {};
+		size_t stack_count = 0;
+		const auto push_integer = [&] (address_t value) {
+			if (iarg <= REG_A7) cpu.reg(iarg++) = value;
+			else stack_args[stack_count++] = value;
+		};
+		const auto push_integral = [&] (auto value) {
+			// 32-bit values are always sign-extended in registers
+			if constexpr (sizeof(value) == 4) push_integer(static_cast<int32_t>(value));
+			else push_integer(static_cast<address_t>(value));
+		};
 
 		// Process each argument
 		// Note: We avoid complex operations in the fold expression to keep it constexpr-friendly
@@ -50,42 +60,51 @@ namespace loongarch
 
 			if constexpr (std::is_same_v<T, std::string>) {
 				// std::string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args.c_str(), args.length() + 1);
+				push_integer(machine.stack_push(sp, args.c_str(), args.length() + 1));
 			}
 			else if constexpr (std::is_same_v<T, const char*> || std::is_same_v<T, char*>) {
 				// C-string: Push zero-terminated string onto stack, pass pointer as integer
-				cpu.reg(iarg++) = machine.stack_push(sp, args, std::strlen(args) + 1);
+				push_integer(machine.stack_push(sp, args, std::strlen(args) + 1));
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
 				args.move(sp - sizeof(T)); // SSO-adjustment
-				cpu.reg(iarg++) = machine.stack_push(sp, &args, sizeof(T));
+				push_integer(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
 				// ScopedArenaObject: Pass the guest address directly
-				cpu.reg(iarg++) = args.address();
+				push_integer(args.address());
 			}
 			else if constexpr (std::is_integral_v<T>) {
 				// Integer types go to integer registers (A0-A7)
-				cpu.reg(iarg++) = static_cast<address_t>(args);
+				push_integral(args);
 			}
 			else if constexpr (std::is_floating_point_v<T>) {
 				// Floating-point types go to FP registers (FA0-FA7)
+				// When they run out, integer registers are used, then the stack
 				if constexpr (sizeof(T) == 4) {
-					cpu.registers().getfl32(farg++) = static_cast<float>(args);
+					const float value = static_cast<float>(args);
+					uint32_t bits = 0;
+					std::memcpy(&bits, &value, sizeof(bits));
+					if (farg < 8) cpu.registers().getfl32(farg++) = value;
+					else push_integer(bits);
 				} else if constexpr (sizeof(T) == 8) {
-					cpu.registers().getfl64(farg++) = static_cast<double>(args);
+					const double value = static_cast<double>(args);
+					uint64_t bits = 0;
+					std::memcpy(&bits, &value, sizeof(bits));
+					if (farg < 8) cpu.registers().getfl64(farg++) = value;
+					else push_integer(bits);
 				}
 			}
 			else if constexpr (std::is_enum_v<T>) {
 				// Enums are treated as their underlying integer type
 				using UnderlyingType = std::underlying_type_t<T>;
-				cpu.reg(iarg++) = static_cast<address_t>(static_cast<UnderlyingType>(args));
+				push_integral(static_cast<UnderlyingType>(args));
 			}
 			else if constexpr (std::is_standard_layout_v<T> && std::is_trivially_copyable_v<T>) {
 				// Standard layout structs: Push onto stack, pass pointer as integer
 				const address_t struct_addr = machine.stack_push(sp, args);
-				cpu.reg(iarg++) = struct_addr;
+				push_integer(struct_addr);
 			}
 			else {
 				static_assert(sizeof(T) == 0, "Unsupported argument type for vmcall. Use integers, floats, enums, strings, or standard-layout structs.");
@@ -94,6 +113,9 @@ namespace loongarch
 
 		// Align stack pointer to 16-byte boundary
 		sp &= ~address_t(0xF);
+		if (stack_count > 0) {
+			machine.stack_push(sp, stack_args.data(), stack_count * sizeof(address_t));
+		}
 		cpu.reg(REG_SP) = sp;
 	}
 
@@ -104,8 +126,8 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		// Setup the call with arguments, on an empty stack
+		setup_call(*this, memory.stack_address(), exit_addr, std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -160,8 +182,8 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
-		// Setup the call with arguments
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
+		// Setup the call with arguments, on an empty stack
+		setup_call(*this, memory.stack_address(), exit_addr, std::forward<Args>(args)...);
 
 		// Set PC to the function address
 		cpu.registers().pc = func_addr;
@@ -181,38 +203,56 @@ namespace loongarch
 		// Use the exit address set via memory.set_exit_address()
 		const address_t exit_addr = memory.exit_address();
 
+		// The suspended program continues from here afterwards
+		const address_t saved_pc = cpu.registers().pc;
+		const address_t saved_sp = cpu.reg(REG_SP);
+		const uint64_t saved_counter = this->instruction_counter();
+		const uint64_t saved_max = this->max_instructions();
 		// Optionally save CPU registers
 		Registers saved_regs;
 		if constexpr (StoreRegs) {
 			saved_regs = cpu.registers();
 		}
-
-		// Allocate 16 bytes on stack for execution context
-		cpu.reg(REG_SP) -= 16;
-
-		// Setup the call
-		setup_call(*this, exit_addr, std::forward<Args>(args)...);
-		cpu.registers().pc = func_addr;
-
-		// Execute with instruction limit
-		this->simulate(max_instr, 0);
-
-		// Restore registers if needed
-		if constexpr (StoreRegs) {
-			// Keep return value in A0
-			const address_t retval = cpu.reg(REG_A0);
-			cpu.registers() = saved_regs;
-			cpu.reg(REG_A0) = retval;
+		const auto restore = [&] {
+			if constexpr (StoreRegs) {
+				cpu.registers() = saved_regs;
+			}
+			// Without both, the interrupted call itself may be resumed
+			if constexpr (StoreRegs || Throw) {
+				cpu.registers().pc = saved_pc;
+				cpu.reg(REG_SP) = saved_sp;
+				this->set_instruction_counter(saved_counter);
+				this->set_max_instructions(saved_max);
+			}
+		};
+
+		bool limit_reached = false;
+		address_t retval = 0;
+		try {
+			// Setup the call below the stack of the suspended program
+			setup_call(*this, (saved_sp - 16) & ~address_t(0xF), exit_addr, std::forward<Args>(args)...);
+			cpu.registers().pc = func_addr;
+
+			// Execute with instruction limit
+			this->simulate(max_instr, 0);
+			limit_reached = this->instruction_limit_reached();
+			retval = cpu.reg(REG_A0);
+		} catch (...) {
+			restore();
+			throw;
 		}
+		restore();
 
 		if constexpr (Throw) {
-			if (this->instruction_limit_reached()) {
+			if (limit_reached) {
 				throw MachineException(MACHINE_TIMEOUT,
 					"preempt: Instruction limit reached", func_addr);
 			}
 		}
 
-		return cpu.reg(REG_A0);
+		// Keep return value in A0
+		cpu.reg(REG_A0) = retval;
+		return retval;
 	}
 
 	// preempt: Call by symbol name with instruction limit
-- 
2.43.0


From 6d4d1c2f54c06e969ef320828dd4ad6adb0d3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:16 +0000
Subject: [PATCH 32/73] fix: the native heap refuses impossible sizes and
 returns whole addresses

---
 lib/libloong/machine_accelerate.cpp | 10 +++++++---
 lib/libloong/native/heap.hpp        |  7 +++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index e98425c..84c82db 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -203,7 +203,7 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 		const size_t len = machine.sysarg(0);
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL malloc(%zu) = 0x%lX\n", len, (long)data);
-		machine.set_result(data);
+		machine.set_result(address_t(data));
 	});
 	// Calloc n+1
 	install_syscall_handler(syscall_base+1,
@@ -212,13 +212,17 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 		const auto [count, size] =
 			machine.template sysargs<address_t, address_t> ();
 		const size_t len = count * size;
+		if (size != 0 && len / size != count) {
+			machine.set_result(address_t(0));
+			return;
+		}
 		auto data = machine.arena().malloc(len);
 		HPRINT("SYSCALL calloc(%zu, %zu) = 0x%lX\n",
 			(size_t)count, (size_t)size, (long)data);
 		if (data != 0) {
 			machine.memory.memset(data, 0, len);
 		}
-		machine.set_result(data);
+		machine.set_result(address_t(data));
 	});
 	// Realloc n+2
 	install_syscall_handler(syscall_base+2,
@@ -236,7 +240,7 @@ void Machine::setup_accelerated_heap(address_t arena_base, size_t arena_size)
 			const char* src_ptr = machine.memory.template memarray<char>(src, srclen);
 			machine.memory.copy_to_guest(data, src_ptr, std::min(address_t(srclen), newlen));
 		}
-		machine.set_result(data);
+		machine.set_result(address_t(data));
 	});
 	// Free n+3
 	install_syscall_handler(syscall_base+3,
diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index ba250b5..bec296f 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -37,6 +37,7 @@ struct ArenaChunk
 struct Arena
 {
 	static constexpr size_t ALIGNMENT = 16u;
+	static constexpr size_t MAX_SIZE = SIZE_MAX - (ALIGNMENT - 1);
 	using PointerType = ArenaChunk::PointerType;
 	using ReallocResult = std::tuple<PointerType, size_t>;
 	using unknown_realloc_func_t = std::function<ReallocResult(PointerType, size_t)>;
@@ -272,6 +273,9 @@ inline void Arena::internal_free(ArenaChunk* ch)
 
 inline Arena::PointerType Arena::malloc(size_t size)
 {
+	// Sizes that cannot be aligned can never be allocated
+	if (LA_UNLIKELY(size > MAX_SIZE))
+		return 0;
 	const size_t length = fixup_size(size);
 	ArenaChunk* ch = base_chunk().find_free(length);
 	this->m_allocation_counter++;
@@ -300,6 +304,9 @@ inline Arena::ReallocResult
 		return m_realloc_unknown_chunk(ptr, newsize);
 	}
 
+	if (LA_UNLIKELY(newsize > MAX_SIZE))
+		return {0x0, 0x0};
+
 	newsize = fixup_size(newsize);
 	if (ch->size >= newsize) // Already long enough?
 		return {ch->data, 0};
-- 
2.43.0


From e6f3a4dd9d7da5ed7f8ebb59d56bb0843381e414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:39 +0000
Subject: [PATCH 33/73] fix: accelerated string functions follow the C
 semantics

---
 lib/libloong/machine_accelerate.cpp | 90 ++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 22 deletions(-)

diff --git a/lib/libloong/machine_accelerate.cpp b/lib/libloong/machine_accelerate.cpp
index 84c82db..8f80ed9 100644
--- a/lib/libloong/machine_accelerate.cpp
+++ b/lib/libloong/machine_accelerate.cpp
@@ -1,7 +1,9 @@
 #include "machine.hpp"
 #include "threaded_bytecodes.hpp"
 #include "native/heap.hpp"
+#include <algorithm>
 #include <cstdio>
+#include <cstring>
 #include <inttypes.h>
 
 //#define VERBOSE_NATSYS
@@ -24,6 +26,34 @@ static constexpr int SYS_native_strnlen = 501;
 static constexpr int SYS_native_strlen  = 500;
 static constexpr bool VERBOSE_PATCHING = false;
 
+// The number of bytes, up to n, from addr to the end of the arena
+static inline size_t bytes_within(Machine& machine, address_t addr, size_t n)
+{
+	const address_t end = machine.memory.arena_size();
+	return std::min<size_t>(n, (addr < end) ? end - addr : 0);
+}
+
+// Compare strings like strncmp(), reading no further than needed
+static int compare_strings(Machine& machine, address_t str1, address_t str2, size_t n)
+{
+	if (n == 0)
+		return 0;
+	const size_t len = std::min(bytes_within(machine, str1, n), bytes_within(machine, str2, n));
+	const char* s1 = machine.memory.template memarray<char>(str1, len);
+	const char* s2 = machine.memory.template memarray<char>(str2, len);
+	const size_t len1 = ::strnlen(s1, len);
+	const size_t len2 = ::strnlen(s2, len);
+	const int result = std::memcmp(s1, s2, std::min(len1, len2));
+	if (result != 0)
+		return result;
+	if (len1 == len && len2 == len && len < n) {
+		// Neither string ended inside memory
+		machine.memory.template memarray<char>(str1, len + 1);
+		machine.memory.template memarray<char>(str2, len + 1);
+	}
+	return (len1 < len2) ? -1 : (len1 > len2);
+}
+
 static inline void patch(Machine& machine, const std::vector<std::string> symbols, const int syscall_number)
 {
 	for (const auto& sym : symbols) {
@@ -69,7 +99,7 @@ void Machine::setup_accelerated_syscalls()
 		// Perform native memcpy
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
-		std::memcpy(dest_ptr, src_ptr, n);
+		std::memmove(dest_ptr, src_ptr, n); // The guest controls overlap
 
 		machine.set_result(dest);
 	});
@@ -79,6 +109,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const int value      = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memset
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		std::memset(dest_ptr, value, n);
@@ -91,6 +125,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr1 = machine.cpu.reg(REG_A0);
 		const address_t ptr2 = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<int>(0);
+			return;
+		}
 		// Perform native memcmp
 		const uint8_t* p1 = machine.memory.template memarray<uint8_t>(ptr1, n);
 		const uint8_t* p2 = machine.memory.template memarray<uint8_t>(ptr2, n);
@@ -104,6 +142,10 @@ void Machine::setup_accelerated_syscalls()
 		const address_t dest = machine.cpu.reg(REG_A0);
 		const address_t src  = machine.cpu.reg(REG_A1);
 		const size_t n       = machine.cpu.reg(REG_A2);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result(dest);
+			return;
+		}
 		// Perform native memmove
 		uint8_t* dest_ptr = machine.memory.template writable_memarray<uint8_t>(dest, n);
 		const uint8_t* src_ptr = machine.memory.template memarray<uint8_t>(src, n);
@@ -117,9 +159,16 @@ void Machine::setup_accelerated_syscalls()
 		const address_t ptr = machine.cpu.reg(REG_A0);
 		const int value     = machine.cpu.reg(REG_A1);
 		const size_t n      = machine.cpu.reg(REG_A2);
-		// Perform native memchr
-		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, n);
-		const void* result = std::memchr(p, value, n);
+		if (LA_UNLIKELY(n == 0)) {
+			machine.set_result<address_t>(0);
+			return;
+		}
+		// Perform native memchr, which reads no further than the match
+		const size_t len = bytes_within(machine, ptr, n);
+		const uint8_t* p = machine.memory.template memarray<uint8_t>(ptr, len);
+		const void* result = std::memchr(p, value, len);
+		if (!result && len < n)
+			machine.memory.template memarray<uint8_t>(ptr, len + 1);
 
 		if (result) {
 			const address_t offset = static_cast<const uint8_t*>(result) - p;
@@ -132,33 +181,32 @@ void Machine::setup_accelerated_syscalls()
 	install_syscall_handler(SYS_native_strlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
-		machine.set_result(machine.memory.strlen(str_addr));
+		const size_t len = machine.memory.strlen(str_addr, ~size_t(0));
+		// The terminator must also be readable
+		machine.memory.template memarray<char>(str_addr, len + 1);
+		machine.set_result(len);
 	});
 
 	install_syscall_handler(SYS_native_strnlen,
 	[] (Machine& machine) {
 		const address_t str_addr = machine.cpu.reg(REG_A0);
 		const size_t maxlen      = machine.cpu.reg(REG_A1);
-		machine.set_result(machine.memory.strlen(str_addr, maxlen));
+		if (LA_UNLIKELY(maxlen == 0)) {
+			machine.set_result<address_t>(0);
+			return;
+		}
+		const size_t len = machine.memory.strlen(str_addr, maxlen);
+		// Without reaching the limit, the terminator must also be readable
+		if (len < maxlen)
+			machine.memory.template memarray<char>(str_addr, len + 1);
+		machine.set_result(len);
 	});
 
 	install_syscall_handler(SYS_native_strcmp,
 	[] (Machine& machine) {
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
-		const size_t len1 = machine.memory.strlen(str1_addr);
-		const size_t len2 = machine.memory.strlen(str2_addr);
-		const size_t cmp_len = std::min(len1, len2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, cmp_len + 1);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, cmp_len + 1);
-		int result = std::memcmp(s1, s2, cmp_len);
-		if (result == 0) {
-			if (len1 < len2) {
-				result = -1;
-			} else if (len1 > len2) {
-				result = 1;
-			}
-		}
+		const int result = compare_strings(machine, str1_addr, str2_addr, ~size_t(0));
 
 		machine.set_result<int>(result);
 	});
@@ -168,9 +216,7 @@ void Machine::setup_accelerated_syscalls()
 		const address_t str1_addr = machine.cpu.reg(REG_A0);
 		const address_t str2_addr = machine.cpu.reg(REG_A1);
 		const size_t n            = machine.cpu.reg(REG_A2);
-		const char* s1 = machine.memory.template memarray<char>(str1_addr, n);
-		const char* s2 = machine.memory.template memarray<char>(str2_addr, n);
-		const int result = std::memcmp(s1, s2, n);
+		const int result = compare_strings(machine, str1_addr, str2_addr, n);
 
 		machine.set_result<int>(result);
 	});
-- 
2.43.0


From 36ef0f92199940ff089a8e73ec627e2c510ec9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:51 +0000
Subject: [PATCH 34/73] fix: mmap stays inside memory, hands out zeroed pages
 and accepts unrounded lengths

---
 lib/libloong/linux/syscalls.cpp | 35 +++++++++++++++++----------------
 lib/libloong/memory.cpp         | 14 ++++++++++++-
 lib/libloong/memory.hpp         |  1 +
 3 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 1780252..c7bb31b 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -13,6 +13,7 @@ namespace loongarch
 	static constexpr int64_t LA_ENOENT = 2;
 	static constexpr int64_t LA_EBADF = 9;
 	static constexpr int64_t LA_EINVAL = 22;
+	static constexpr int64_t LA_ENOMEM = 12;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOTTY = 25;
 
@@ -586,34 +587,34 @@ namespace loongarch
 			machine.template return_value<int>());
 	}
 
+	static constexpr int LINUX_MAP_FIXED     = 0x10;
+	static constexpr int LINUX_MAP_ANONYMOUS = 0x20;
+
 	// MMAP syscall
 	static void syscall_mmap(Machine& machine)
 	{
 		auto [addr, length, prot, flags, fd, offset] =
 			machine.template sysargs<address_t, size_t, int, int, int, off_t>();
 
+		auto& memory = machine.memory;
 		// Simple implementation: allocate memory from our heap
-		if (addr == 0) {
-			// Anonymous mapping - allocate new memory
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if ((flags & 0x10) == 0x0) {
-			// no fixed flag - force into new allocation
-			auto new_addr = machine.memory.mmap_allocate(length);
-			machine.set_result(new_addr);
-		} else if (addr < machine.memory.mmap_address()) {
+		if (length == 0) {
+			machine.set_result(-LA_EINVAL);
+		} else if (addr == 0 || (flags & LINUX_MAP_FIXED) == 0x0) {
+			// No fixed address - force into new allocation (always zeroed)
+			if (length <= memory.mmap_available())
+				machine.set_result(memory.mmap_allocate(length));
+			else
+				machine.set_result(-LA_ENOMEM);
+		} else if (addr < memory.mmap_address() && length <= memory.mmap_address() - addr) {
 			// It's within the mmap region - allow
+			if ((flags & LINUX_MAP_ANONYMOUS) != 0 && addr >= memory.data_start()) {
+				memory.memset(addr, 0, length);
+			}
 			machine.set_result(addr);
 		} else {
 			// Fixed address mapping not supported for now
-			machine.set_result(-1);
-		}
-
-		// Anonymous mapping: zero out the memory
-		if (false && machine.template return_value<address_t>() != static_cast<address_t>(-1)) {
-			if (flags & 0x20) { // MAP_ANONYMOUS
-				machine.memory.memset(machine.template return_value<address_t>(), 0, length);
-			}
+			machine.set_result(-LA_ENOMEM);
 		}
 
 		sysprint(machine, "mmap(addr=0x%llx, len=%llu, prot=0x%x, flags=0x%x, fd=%d, offset=%llu) = 0x%llx\n",
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index d6aaafd..aeb3e97 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -290,8 +290,17 @@ std::string_view Memory::memview(address_t addr, size_t len) const
 	return std::string_view(ptr, len);
 }
 
+size_t Memory::mmap_available() const noexcept
+{
+	const address_t end = m_arena_size & ~address_t(4095);
+	return (m_mmap_address < end) ? end - m_mmap_address : 0;
+}
+
 address_t Memory::mmap_allocate(size_t size)
 {
+	if (m_arena != nullptr && size > this->mmap_available()) {
+		throw MachineException(OUT_OF_MEMORY, "Out of memory in mmap area", size);
+	}
 	size = (size + 4095) & ~size_t(4095); // Align to page size
 	const address_t result = this->m_mmap_address;
 	this->m_mmap_address += size;
@@ -301,7 +310,10 @@ address_t Memory::mmap_allocate(size_t size)
 void Memory::mmap_deallocate(address_t addr, size_t size)
 {
 	// Allow relaxation of mmap area by moving m_mmap_address back
-	if (addr + size == this->m_mmap_address) {
+	size = (size + 4095) & ~size_t(4095); // Align to page size
+	if (size != 0 && addr >= m_heap_address && addr < m_mmap_address && size == m_mmap_address - addr) {
+		// The next allocation must see zeroes
+		this->memset(addr, 0, size);
 		this->m_mmap_address = addr;
 	}
 }
diff --git a/lib/libloong/memory.hpp b/lib/libloong/memory.hpp
index c50629f..19ff89e 100644
--- a/lib/libloong/memory.hpp
+++ b/lib/libloong/memory.hpp
@@ -44,6 +44,7 @@ namespace loongarch
 		// Memory mapping
 		address_t mmap_allocate(size_t size);
 		void mmap_deallocate(address_t addr, size_t size);
+		size_t mmap_available() const noexcept; // Largest possible allocation
 
 		// Execute segments
 		DecodedExecuteSegment& create_execute_segment(
-- 
2.43.0


From 4e7a3c7728f4b9c68ed43ccc1aa4fb7a7ac7d7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 35/73] fix: Linux system calls keep to the LoongArch ABI and
 report errors

---
 lib/libloong/linux/syscalls.cpp | 22 +++++++++++-----------
 lib/libloong/posix/signals.cpp  |  3 ++-
 lib/libloong/posix/signals.hpp  |  2 +-
 3 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index c7bb31b..99ec8b0 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -119,8 +119,7 @@ namespace loongarch
 				auto base = machine.memory.template read<address_t>(iovec_offset);
 				auto len = machine.memory.template read<address_t>(iovec_offset + sizeof(address_t));
 
-				// Sanity check on length
-				if (len > 0 && len < 1024 * 1024) {
+				if (len > 0) {
 					const char* view = machine.memory.template memarray<char>(base, len);
 					machine.print(view, len);
 					total += len;
@@ -239,8 +238,11 @@ namespace loongarch
 		auto [clockid, tp] =
 			machine.template sysargs<int, address_t>();
 		if (tp != 0) {
-			struct timespec ts;
-			clock_gettime(clockid, &ts);
+			struct timespec ts {};
+			if (clock_gettime(clockid, &ts) < 0) {
+				machine.set_result(-LA_EINVAL);
+				return;
+			}
 			machine.memory.copy_to_guest(tp, &ts, sizeof(ts));
 		}
 		machine.set_result(0);
@@ -373,11 +375,10 @@ namespace loongarch
 
 		auto& sigact = machine.sigaction(sig);
 
-		// Kernel sigaction structure (64-bit)
+		// Kernel sigaction structure (LoongArch has no sa_restorer)
 		struct kernel_sigaction {
 			address_t sa_handler;
 			address_t sa_flags;
-			address_t sa_restorer;
 			address_t sa_mask;
 		};
 
@@ -385,9 +386,8 @@ namespace loongarch
 
 		// Return old action if requested
 		if (old_action != 0x0) {
-			sa.sa_handler = sigact.handler & ~address_t(0x3);
+			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler & ~address_t(0x3);
 			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
-			sa.sa_restorer = 0;
 			sa.sa_mask    = sigact.mask;
 			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
 		}
@@ -426,7 +426,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_tgkill(Machine& machine)
@@ -456,7 +455,6 @@ namespace loongarch
 
 		// Jump to signal handler and change to altstack, if set
 		machine.signals().enter(machine, sig);
-		machine.set_result(0);
 	}
 
 	static void syscall_brk(Machine& machine)
@@ -687,6 +685,7 @@ namespace loongarch
 			short events;
 			short revents;
 		};
+		size_t ready = 0;
 		vpollfd* fds = machine.memory.template writable_memarray<vpollfd>(fds_addr, nfds);
 		for (size_t i = 0; i < nfds; i++) {
 			const int fd = fds[i].fd;
@@ -695,13 +694,14 @@ namespace loongarch
 				// Set revents to match events (ready)
 				auto events = fds[i].events;
 				fds[i].revents = events;
+				if (events != 0) ready++;
 			} else {
 				// Clear revents for other fds
 				fds[i].revents = 0;
 			}
 		}
 		// Mark stdio as ready (stub)
-		machine.set_result(0);
+		machine.set_result(ready);
 	}
 
 	void Machine::setup_linux_syscalls()
diff --git a/lib/libloong/posix/signals.cpp b/lib/libloong/posix/signals.cpp
index fe59858..4ccdac3 100644
--- a/lib/libloong/posix/signals.cpp
+++ b/lib/libloong/posix/signals.cpp
@@ -30,7 +30,8 @@ namespace loongarch
 			machine.cpu.reg(REG_SP) = stack.ss_sp + stack.ss_size;
 		}
 
-		// Jump to handler
+		// Jump to handler, with the signal number as argument
+		machine.cpu.reg(REG_A0) = sig;
 		machine.cpu.jump(sigact.handler-4);
 	}
 
diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c09902b..c8f1bd6 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-		unsigned mask = 0x0;            // Signal mask
+		address_t mask = 0x0;           // Signal mask
 	};
 
 	// Signal return state (stores registers for return)
-- 
2.43.0


From 2b08f1107825d6ad4273d1fbc80e3186e95ef679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:18 +0000
Subject: [PATCH 36/73] fix: guest threads are woken, joined and removed
 exactly once

---
 lib/libloong/linux/syscalls_threads.cpp | 16 ++++++++++++----
 lib/libloong/posix/threads.cpp          | 25 +++++++++++++++++++------
 lib/libloong/posix/threads.hpp          | 11 ++++++-----
 3 files changed, 37 insertions(+), 15 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 641a639..a95d698 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -51,7 +51,7 @@ namespace loongarch
 					return;
 				}
 				// Deadlock - unlock and continue
-				machine.memory.write<address_t>(addr, 0);
+				machine.memory.write<uint32_t>(addr, 0);
 				machine.set_result(0);
 				return;
 			}
@@ -106,7 +106,7 @@ namespace loongarch
 		// set_tid_address
 		this->install_syscall_handler(96,
 		[](Machine& machine) {
-			const int clear_tid = machine.sysarg<address_t>(0);
+			const auto clear_tid = machine.sysarg<address_t>(0);
 			// With initialized threads
 			if (machine.has_threads()) {
 				machine.threads().get_thread()->clear_tid = clear_tid;
@@ -148,9 +148,17 @@ namespace loongarch
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
 				// If the signal is unhandled, exit the thread
-				if (sig != 0 && machine.sigaction(sig).is_unset()) {
-					if (!thread->exit())
+				if (sig == 0) {
+					// Only check that the thread exists
+					machine.set_result(0);
+					return;
+				} else if (machine.sigaction(sig).is_unset()) {
+					const bool myself = (thread == machine.threads().get_thread());
+					if (!thread->exit()) {
+						if (!myself)
+							machine.set_result(0);
 						return;
+					}
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 7ac53cf..27e024f 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -28,6 +28,12 @@ Thread* MultiThreading::get_thread(int tid)
 	return &it->second;
 }
 
+void MultiThreading::forget_waiting(const Thread* thread)
+{
+	std::erase(m_suspended, thread);
+	std::erase(m_blocked, thread);
+}
+
 void MultiThreading::wakeup_next()
 {
 	// resume a waiting thread
@@ -76,7 +82,9 @@ bool Thread::exit()
 	const int tid = this->tid;
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
-		threading.machine.memory.write<address_t>(this->clear_tid, 0);
+		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
+		// Wake up a joining thread
+		threading.wakeup_blocked(1, this->clear_tid);
 	}
 	// Delete this thread (except main thread)
 	if (tid != 0) {
@@ -108,7 +116,7 @@ void Thread::suspend(address_t return_value)
 	this->stored_regs.get(REG_A0) = return_value;
 }
 
-void Thread::block(uint32_t reason, uint32_t extra)
+void Thread::block(address_t reason, uint32_t extra)
 {
 	// copy all regs
 	this->stored_regs = threading.machine.cpu.registers();
@@ -118,7 +126,7 @@ void Thread::block(uint32_t reason, uint32_t extra)
 	threading.m_blocked.push_back(this);
 }
 
-void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extra)
+void Thread::block_return(address_t return_value, address_t reason, uint32_t extra)
 {
 	this->block(reason, extra);
 	// set the block reason as the next return value
@@ -128,6 +136,7 @@ void Thread::block_return(address_t return_value, uint32_t reason, uint32_t extr
 void Thread::resume()
 {
 	threading.m_current = this;
+	threading.forget_waiting(this);
 	auto& m = threading.machine;
 	// restore registers
 	m.cpu.registers() = this->stored_regs;
@@ -162,6 +171,9 @@ Thread* MultiThreading::create(
 
 void MultiThreading::erase_thread(int tid)
 {
+	if (auto* thread = get_thread(tid)) {
+		this->forget_waiting(thread);
+	}
 	m_threads.erase(tid);
 }
 
@@ -174,10 +186,11 @@ bool MultiThreading::suspend_and_yield(long result)
 		wakeup_next();
 		return true;
 	}
+	machine.set_result(result);
 	return false;
 }
 
-bool MultiThreading::block(address_t retval, uint32_t reason, uint32_t extra)
+bool MultiThreading::block(address_t retval, address_t reason, uint32_t extra)
 {
 	// Block current thread and yield to next
 	if (!m_suspended.empty() || m_threads.size() > 1) {
@@ -200,13 +213,13 @@ void MultiThreading::unblock(int tid)
 	}
 }
 
-size_t MultiThreading::wakeup_blocked(size_t max, uint32_t reason, uint32_t mask)
+size_t MultiThreading::wakeup_blocked(size_t max, address_t reason, uint32_t mask)
 {
 	size_t awakened = 0;
 	for (auto it = m_blocked.begin(); it != m_blocked.end() && awakened < max; ) {
 		auto* thread = *it;
 		// Check if the thread matches the reason and mask
-		if (thread->block_word == reason && (thread->block_extra & mask) != 0) {
+		if (thread->block_word == reason && (thread->block_extra == 0 || (thread->block_extra & mask) != 0)) {
 			// Move from blocked to suspended
 			it = m_blocked.erase(it);
 			m_suspended.push_back(thread);
diff --git a/lib/libloong/posix/threads.hpp b/lib/libloong/posix/threads.hpp
index 90985fa..9dbab93 100644
--- a/lib/libloong/posix/threads.hpp
+++ b/lib/libloong/posix/threads.hpp
@@ -28,7 +28,7 @@ namespace loongarch
 		// Address zeroed when exiting
 		address_t clear_tid = 0;
 		// The current or last blocked word
-		uint32_t block_word = 0;
+		address_t block_word = 0;
 		uint32_t block_extra = 0;
 
 		Thread(MultiThreading&, int tid, address_t tls,
@@ -37,8 +37,8 @@ namespace loongarch
 		bool exit(); // Returns false when we *cannot* continue
 		void suspend();
 		void suspend(address_t return_value);
-		void block(uint32_t reason, uint32_t extra = 0);
-		void block_return(address_t return_value, uint32_t reason, uint32_t extra);
+		void block(address_t reason, uint32_t extra = 0);
+		void block_return(address_t return_value, address_t reason, uint32_t extra);
 		void activate();
 		void resume();
 	};
@@ -55,9 +55,10 @@ namespace loongarch
 		bool      yield_to(int tid, bool store_retval = false, address_t retval = 0);
 		void      erase_thread(int tid);
 		void      wakeup_next();
-		bool      block(address_t retval, uint32_t reason, uint32_t extra = 0);
+		void      forget_waiting(const Thread* thread); /* No longer suspended or blocked */
+		bool      block(address_t retval, address_t reason, uint32_t extra = 0);
 		void      unblock(int tid);
-		size_t    wakeup_blocked(size_t max, uint32_t reason, uint32_t mask = ~0U);
+		size_t    wakeup_blocked(size_t max, address_t reason, uint32_t mask = ~0U);
 		/* A suspended thread can at any time be resumed. */
 		auto&     suspended_threads() { return m_suspended; }
 		/* A blocked thread can only be resumed by unblocking it. */
-- 
2.43.0


From 8f475269a7b6092000f5ae44932d1fd2a5d0ea82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:09 +0000
Subject: [PATCH 37/73] fix: the initial stack pointer is 16-byte aligned

---
 lib/libloong/machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index 477e3d5..e26cc0a 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -118,6 +118,12 @@ namespace loongarch
 		auxv.push_back({AT_PHDR, memory.elf_phdr_addr()});
 		auxv.push_back({AT_NULL, 0});
 
+		// The stack pointer must be 16-byte aligned after pushing argc,
+		// the argv and envp pointers and their NULL terminators
+		if ((arg_ptrs.size() + env_ptrs.size() + 3) % 2 != 0) {
+			sp -= sizeof(address_t);
+		}
+
 		// Push auxiliary vector (already in reverse order)
 		sp -= auxv.size() * 2 * sizeof(address_t);
 		memory.copy_to_guest(sp, auxv.data(), auxv.size() * 2 * sizeof(address_t));
-- 
2.43.0


From 9eda9f0832e9f807df760dde99d30b42a24dc938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 38/73] fix: empty copies between host and guest may have null
 host pointers

---
 lib/libloong/memory_rw.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/memory_rw.cpp b/lib/libloong/memory_rw.cpp
index d2a0094..a93974e 100644
--- a/lib/libloong/memory_rw.cpp
+++ b/lib/libloong/memory_rw.cpp
@@ -19,7 +19,8 @@ namespace loongarch
 			throw MachineException(PROTECTION_FAULT, "Write to read-only memory", dest);
 		}
 
-		std::memcpy(&m_arena[dest], src, len);
+		if (len != 0) // The source of an empty copy may be null
+			std::memcpy(&m_arena[dest], src, len);
 	}
 
 	void Memory::copy_from_guest(void* dest, address_t src, size_t len) const
@@ -37,7 +38,8 @@ namespace loongarch
 			throw MachineException(PROTECTION_FAULT, "Read from unmapped memory", src);
 		}
 
-		std::memcpy(dest, &m_arena[src], len);
+		if (len != 0) // The destination of an empty copy may be null
+			std::memcpy(dest, &m_arena[src], len);
 	}
 
 	void Memory::memset(address_t dest, uint8_t value, size_t len)
-- 
2.43.0


From f67440f3ce7b0d5bb3476086e0ca74a3975757f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:31 +0000
Subject: [PATCH 39/73] fix: an ending thread does not consume its own wakeup

---
 lib/libloong/posix/threads.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/libloong/posix/threads.cpp b/lib/libloong/posix/threads.cpp
index 27e024f..a15b676 100644
--- a/lib/libloong/posix/threads.cpp
+++ b/lib/libloong/posix/threads.cpp
@@ -80,6 +80,8 @@ bool Thread::exit()
 	// Copy of reference to thread manager and thread ID
 	auto& thr = this->threading;
 	const int tid = this->tid;
+	// An ending thread is no longer waiting for anything
+	thr.forget_waiting(this);
 	// CLONE_CHILD_CLEARTID: set userspace TID value to zero
 	if (this->clear_tid) {
 		threading.machine.memory.write<uint32_t>(this->clear_tid, 0);
-- 
2.43.0


From c60e3e3c260069a445144fd241c2ca42e5855fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:30 +0000
Subject: [PATCH 40/73] fix: heap pointers are compared in full

---
 lib/libloong/native/heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index bec296f..de9f6d0 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -15,7 +15,7 @@ struct Arena;
 
 struct ArenaChunk
 {
-	using PointerType = uint32_t;
+	using PointerType = address_t;
 
 	ArenaChunk() = default;
 	ArenaChunk(ArenaChunk* n, ArenaChunk* p, size_t s, bool f, PointerType d)
-- 
2.43.0


From 77abd62086565d967ddc275b04cf34aecefa20ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:27 +0000
Subject: [PATCH 41/73] fix: backtraces and symbol ranges handle any name and
 size

---
 lib/libloong/machine_backtrace.cpp | 28 ++++++----------------------
 lib/libloong/memory.cpp            |  2 +-
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/lib/libloong/machine_backtrace.cpp b/lib/libloong/machine_backtrace.cpp
index 2225c12..3305113 100644
--- a/lib/libloong/machine_backtrace.cpp
+++ b/lib/libloong/machine_backtrace.cpp
@@ -45,18 +45,10 @@ std::string Machine::backtrace(address_t initial) const
 	if (initial == 0) {
 		initial = cpu.pc();
 	}
-	char buffer[4096];
-	int n = snprintf(buffer, sizeof(buffer),
-		"#-: 0x%016lx %s\n",
-		(unsigned long)initial,
-		lookup_demangled_symbol(initial).c_str());
-
-	std::string result;
-	if (n > 0) {
-		result.append(buffer, static_cast<size_t>(n));
-	} else {
-		return result;
-	}
+	char buffer[64];
+	snprintf(buffer, sizeof(buffer), "#-: 0x%016lx ", (unsigned long)initial);
+	// Symbol names have no length limit
+	std::string result = buffer + lookup_demangled_symbol(initial) + "\n";
 
 	/// XXX: If the binary has unwinding information, we could use that here
 	/// to do a more reliable backtrace. For now, we will just read the return
@@ -65,16 +57,8 @@ std::string Machine::backtrace(address_t initial) const
 	address_t ra = cpu.reg(REG_RA);
 	size_t depth = 0;
 	while (ra != 0 && depth < 64) {
-		int n = snprintf(buffer, sizeof(buffer),
-			"#%zu: 0x%016lx %s\n",
-			depth,
-			(unsigned long)ra,
-			lookup_demangled_symbol(ra).c_str());
-		if (n > 0) {
-			result.append(buffer, static_cast<size_t>(n));
-		} else {
-			break;
-		}
+		snprintf(buffer, sizeof(buffer), "#%zu: 0x%016lx ", depth, (unsigned long)ra);
+		result += buffer + lookup_demangled_symbol(ra) + "\n";
 		// Read next return address from stack
 		try {
 			ra = memory.template read<address_t>(sp);
diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index aeb3e97..a1e2875 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -437,7 +437,7 @@ const Symbol* Memory::lookup_symbol(address_t addr) const
 	const Symbol* best_match = nullptr;
 	for (const auto& sym : m_symbols) {
 		// Check if address is within symbol range
-		if (addr >= sym.address && addr < sym.address + sym.size) {
+		if (addr >= sym.address && addr - sym.address < sym.size) {
 			return &sym;
 		}
 		// Also track the closest symbol before this address (for functions with unknown size)
-- 
2.43.0


From 19e02f47650b76f558806ca339a76b42e28089d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:32 +0000
Subject: [PATCH 42/73] fix: only identical code shares an execute segment

---
 lib/libloong/memory.cpp              | 24 +++++++++++-------------
 lib/libloong/shared_exec_segment.hpp | 11 ++++++++++-
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/memory.cpp b/lib/libloong/memory.cpp
index a1e2875..fe863e2 100644
--- a/lib/libloong/memory.cpp
+++ b/lib/libloong/memory.cpp
@@ -341,21 +341,19 @@ DecodedExecuteSegment& Memory::create_execute_segment(
 		auto& shared_cache = get_shared_execute_segments();
 		auto& entry = shared_cache.get_segment(key);
 
-		// Lock the segment entry and check if it exists
-		std::shared_ptr<DecodedExecuteSegment> existing = entry.get();
-
-		if (existing) {
+		// Create the segment while holding the lock, unless another machine already did
+		std::lock_guard<std::mutex> lock(entry.mutex);
+		if (!entry.segment) {
+			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
+			entry.unlocked_set(segment, data, len);
+		} else if (entry.unlocked_is(data, len)) {
 			// Reuse existing shared segment
-			segment = existing;
-		} else {
-			// No existing segment, use the one we just created
-			std::lock_guard<std::mutex> lock(entry.mutex);
-			// Double-check in case another thread created it
-			if (!entry.segment) {
-				entry.segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
-				populate_decoder_cache(m_machine, options, entry.segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
-			}
 			segment = entry.segment;
+		} else {
+			// Different instructions with the same hash cannot be shared
+			segment = std::make_shared<DecodedExecuteSegment>(addr, addr + len);
+			populate_decoder_cache(m_machine, options, segment, addr, static_cast<const uint8_t*>(data), len, is_initial);
 		}
 	} else {
 		// Not using shared segments, create a new one
diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index 3f6193e..b0830c7 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -1,9 +1,11 @@
 #pragma once
 #include "common.hpp"
 #include "decoded_exec_segment.hpp"
+#include <algorithm>
 #include <memory>
 #include <mutex>
 #include <unordered_map>
+#include <vector>
 
 namespace loongarch
 {
@@ -59,6 +61,7 @@ namespace loongarch
 		// concurrently by different threads.
 		struct Segment {
 			std::shared_ptr<DecodedExecuteSegment> segment;
+			std::vector<uint8_t> code; // The instructions the segment was made from
 			std::mutex mutex;
 
 			// Thread-safe getter
@@ -68,9 +71,15 @@ namespace loongarch
 			}
 
 			// Internal setter (caller must hold mutex)
-			void unlocked_set(std::shared_ptr<DecodedExecuteSegment> seg) {
+			void unlocked_set(std::shared_ptr<DecodedExecuteSegment> seg, const void* data = nullptr, size_t len = 0) {
+				auto* begin = static_cast<const uint8_t*>(data);
+				this->code.assign(begin, begin + len);
 				this->segment = std::move(seg);
 			}
+			// Hashes can collide (caller must hold mutex)
+			bool unlocked_is(const void* data, size_t len) const {
+				return code.size() == len && std::equal(code.begin(), code.end(), static_cast<const uint8_t*>(data));
+			}
 		};
 
 		// Remove a segment if it is the last reference
-- 
2.43.0


From 31988f427757d47724c3e8a41a83059e0a383b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 43/73] fix: instruction handlers can be added while other
 machines run

---
 lib/libloong/decoder_cache.cpp | 15 ++++++++++++---
 lib/libloong/decoder_cache.hpp |  7 +++++--
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/lib/libloong/decoder_cache.cpp b/lib/libloong/decoder_cache.cpp
index 0934c08..36bfff8 100644
--- a/lib/libloong/decoder_cache.cpp
+++ b/lib/libloong/decoder_cache.cpp
@@ -4,6 +4,7 @@
 #include "threaded_bytecodes.hpp"
 #include "util/crc32.hpp"
 #include <cstring>
+#include <mutex>
 
 namespace loongarch {
 extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr<DecodedExecuteSegment>&);
@@ -276,16 +277,24 @@ extern bool try_translate(const Machine&, const MachineOptions&, std::shared_ptr
 
 	uint16_t DecoderData::compute_handler_for(handler_t handler)
 	{
+		static std::mutex handlers_mutex;
+		static size_t handlers_count = 0;
+		// Machines can be created in many threads
+		std::lock_guard<std::mutex> lock(handlers_mutex);
+
 		// Search for existing handler
-		for (size_t i = 0; i < m_handlers.size(); ++i) {
+		for (size_t i = 0; i < handlers_count; ++i) {
 			if (m_handlers[i] == handler) {
 				return static_cast<uint16_t>(i);
 			}
 		}
 
 		// Add new handler
-		m_handlers.push_back(handler);
-		return static_cast<uint16_t>(m_handlers.size() - 1);
+		if (handlers_count >= MAX_HANDLERS) {
+			throw MachineException(INVALID_PROGRAM, "DecoderCache: Too many instruction handlers");
+		}
+		m_handlers[handlers_count] = handler;
+		return static_cast<uint16_t>(handlers_count++);
 	}
 
 	void DecodedExecuteSegment::set(address_t entry_addr, const DecoderData& data)
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index dc66f67..035a356 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -1,6 +1,6 @@
 #pragma once
 #include "common.hpp"
-#include <vector>
+#include <array>
 
 namespace loongarch
 {
@@ -35,7 +35,10 @@ namespace loongarch
 		}
 
 	private:
-		static inline std::vector<handler_t> m_handlers;
+		// Machines running in other threads may be reading from this array,
+		// so handlers are never moved once added.
+		static constexpr size_t MAX_HANDLERS = 512;
+		static inline std::array<handler_t, MAX_HANDLERS> m_handlers {};
 	};
 	static_assert(sizeof(DecoderData) == 8, "DecoderData size incorrect");
 
-- 
2.43.0


From 9ff7a71d813e7fa677d3c4a6375729a971242574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:39 +0000
Subject: [PATCH 44/73] fix: short guest strings can be on the heap

---
 lib/libloong/guest_datatypes.hpp | 22 +++++++++++++++++-----
 lib/libloong/machine_vmcall.hpp  |  2 +-
 lib/libloong/native/heap.hpp     |  6 +++---
 3 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index d246e99..1eca04f 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -65,9 +65,20 @@ struct GuestStdString {
 	bool empty() const noexcept { return len == 0; }
 	size_t size() const noexcept { return len; }
 
+	/// @brief Check if the string owns memory on the guest heap. Short strings
+	/// may do so too, for example after reserve() or erase() in the guest.
+	bool on_heap(const Machine& machine) const
+	{
+		if (size() > SSO)
+			return true;
+		// The shortest text libstdc++ moves to the heap has a capacity above SSO
+		return capacity > SSO && capacity < machine.memory.arena_size()
+			&& machine.has_arena() && machine.arena().size(ptr) != 0;
+	}
+
 	std::string to_string(const Machine& machine, std::size_t max_len = 16UL << 20) const
 	{
-		if (this->size() <= SSO)
+		if (!this->on_heap(machine))
 			return std::string(data, size());
 		else if (this->size() > max_len)
 			throw std::runtime_error("Guest std::string too large (size > 16MB)");
@@ -79,7 +90,7 @@ struct GuestStdString {
 
 	std::string_view to_view(const Machine& machine, std::size_t max_len = 16UL << 20) const
 	{
-		if (this->size() <= SSO)
+		if (!this->on_heap(machine))
 			return std::string_view(data, size());
 		else if (this->size() > max_len)
 			throw std::runtime_error("Guest std::string too large (size > 16MB)");
@@ -131,12 +142,13 @@ struct GuestStdString {
 
 	void fix_addresses(Machine& machine, address_t self)
 	{
-		this->move(self);
+		if (!this->on_heap(machine))
+			this->move(self);
 	}
 
 	void free(Machine& machine)
 	{
-		if (size() > SSO) {
+		if (this->on_heap(machine)) {
 			machine.arena().free(ptr);
 		}
 		this->ptr = 0;
@@ -468,7 +480,7 @@ struct GuestStdVector {
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
 			for (std::size_t i = 0; i < size(); i++)
-				array[i].move(this->ptr_begin + i * sizeof(T));
+				array[i].fix_addresses(machine, this->ptr_begin + i * sizeof(T));
 		}
 	}
 
diff --git a/lib/libloong/machine_vmcall.hpp b/lib/libloong/machine_vmcall.hpp
index b98e5d3..1750f30 100644
--- a/lib/libloong/machine_vmcall.hpp
+++ b/lib/libloong/machine_vmcall.hpp
@@ -68,7 +68,7 @@ namespace loongarch
 			}
 			else if constexpr (std::is_same_v<T, GuestStdString>) {
 				// GuestStdString: Adjust SSO pointer and push onto stack
-				args.move(sp - sizeof(T)); // SSO-adjustment
+				args.fix_addresses(machine, sp - sizeof(T)); // SSO-adjustment
 				push_integer(machine.stack_push(sp, &args, sizeof(T)));
 			}
 			else if constexpr (is_scoped_guest_object<T>::value) {
diff --git a/lib/libloong/native/heap.hpp b/lib/libloong/native/heap.hpp
index de9f6d0..6375b08 100644
--- a/lib/libloong/native/heap.hpp
+++ b/lib/libloong/native/heap.hpp
@@ -66,7 +66,7 @@ struct Arena
 	/// @param src The pointer to the memory range.
 	/// @param allow_free Whether to allow querying the size of a free chunk.
 	/// @return The size of the memory range, or 0 if the pointer is invalid.
-	size_t      size(PointerType src, bool allow_free = false);
+	size_t      size(PointerType src, bool allow_free = false) const;
 
 	/// @brief Free a previous allocation.
 	/// @param src The pointer to the memory range.
@@ -330,9 +330,9 @@ inline Arena::ReallocResult
 	return {0x0, 0x0};
 }
 
-inline size_t Arena::size(PointerType ptr, bool allow_free)
+inline size_t Arena::size(PointerType ptr, bool allow_free) const
 {
-	ArenaChunk* ch = this->begin_find_used(ptr);
+	const ArenaChunk* ch = const_cast<Arena*>(this)->begin_find_used(ptr);
 	if (LA_UNLIKELY(ch == nullptr || (ch->free && !allow_free)))
 		return 0;
 	return ch->size;
-- 
2.43.0


From e4934d9bc394dc03f61bdfc65774cb0d58ba860d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:57 +0000
Subject: [PATCH 45/73] fix: strings in guest vectors point at their own text

---
 lib/libloong/guest_datatypes.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 1eca04f..560d96e 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -253,6 +253,7 @@ struct GuestStdVector {
 		}
 		// Set new end only after all elements are constructed
 		this->ptr_end = this->ptr_begin + elements * sizeof(T);
+		this->fix_elements(machine, 0);
 	}
 
 	GuestStdVector(Machine& machine, const std::vector<std::string>& vec)
@@ -331,6 +332,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(std::move(value));
 		this->ptr_end += sizeof(T);
+		this->fix_elements(machine, size() - 1);
 	}
 
 	void push_back(Machine& machine, const T& value) {
@@ -339,6 +341,7 @@ struct GuestStdVector {
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + 1);
 		new (&array[size()]) T(value);
 		this->ptr_end += sizeof(T);
+		this->fix_elements(machine, size() - 1);
 	}
 
 	// Specialization for std::string and std::string_view
@@ -373,6 +376,7 @@ struct GuestStdVector {
 		for (std::size_t i = 0; i < count; i++)
 			new (&array[size() + i]) T(values[i]);
 		this->ptr_end += count * sizeof(T);
+		this->fix_elements(machine, size() - count);
 	}
 
 	void clear(Machine& machine) {
@@ -435,6 +439,7 @@ struct GuestStdVector {
 		(void)self;
 		std::copy(vec.begin(), vec.end(), array);
 		this->ptr_end = this->ptr_begin + vec.size() * sizeof(T);
+		this->fix_elements(machine, 0);
 	}
 
 	void assign(Machine& machine, const T* values, std::size_t count)
@@ -443,6 +448,7 @@ struct GuestStdVector {
 		(void)self;
 		std::copy(values, values + count, array);
 		this->ptr_end = this->ptr_begin + count * sizeof(T);
+		this->fix_elements(machine, 0);
 	}
 
 	void resize(Machine& machine, std::size_t new_size)
@@ -457,7 +463,9 @@ struct GuestStdVector {
 			T* array = machine.memory.template writable_memarray<T>(this->data(), new_size);
 			for (std::size_t i = size(); i < new_size; i++)
 				new (&array[i]) T();
+			const std::size_t old_size = size();
 			this->ptr_end = this->ptr_begin + new_size * sizeof(T);
+			this->fix_elements(machine, old_size);
 		}
 	}
 
@@ -476,12 +484,7 @@ struct GuestStdVector {
 			machine.arena().free(old_vec.ptr_begin);
 		}
 		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
-		// Adjust SSO if the vector contains std::string
-		if constexpr (std::is_same_v<T, GuestStdString>) {
-			T* array = machine.memory.template writable_memarray<T>(this->data(), size());
-			for (std::size_t i = 0; i < size(); i++)
-				array[i].fix_addresses(machine, this->ptr_begin + i * sizeof(T));
-		}
+		this->fix_elements(machine, 0);
 	}
 
 	void free(Machine& machine) {
@@ -519,6 +522,14 @@ struct GuestStdVector {
 	std::size_t capacity_bytes() const noexcept { return ptr_capacity - ptr_begin; }
 
 private:
+	// Adjust SSO of elements that have been placed in the vector
+	void fix_elements(Machine& machine, std::size_t first) {
+		if constexpr (std::is_same_v<T, GuestStdString>) {
+			for (std::size_t i = first; i < size(); i++)
+				this->at(machine, i, SIZE_MAX).fix_addresses(machine, this->address_at(i));
+		}
+	}
+
 	void increase_capacity(Machine& machine) {
 		this->reserve(machine, capacity() * 2 + 4);
 	}
@@ -588,6 +599,9 @@ struct ScopedArenaObject {
 		this->allocate_if_null();
 		this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
 		new (m_ptr) T(other);
+		if constexpr (has_fix_addresses<T>::value) {
+			this->m_ptr->fix_addresses(*m_machine, this->m_addr);
+		}
 		return *this;
 	}
 
-- 
2.43.0


From f36c9de1a56ea8e974bf2e42de3f8b560d465535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:13 +0000
Subject: [PATCH 46/73] fix: a full guest heap is reported by guest containers

---
 lib/libloong/guest_datatypes.hpp | 39 ++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 560d96e..b965594 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include "native/heap.hpp"
+#include <new>
 #include <stdexcept>
 #include <string>
 #include <string_view>
@@ -37,6 +38,18 @@ struct has_fix_addresses : std::false_type {};
 template <typename T>
 struct has_fix_addresses<T, std::void_t<decltype(std::declval<T>().fix_addresses(std::declval<Machine&>(), std::declval<address_t>()))>> : std::true_type {};
 
+// Allocate guest memory for a number of elements
+template <typename T>
+inline address_t allocate_elements(Machine& machine, std::size_t elements)
+{
+	if (elements > SIZE_MAX / sizeof(T))
+		throw std::bad_alloc();
+	const address_t address = machine.arena().malloc(elements * sizeof(T));
+	if (address == 0)
+		throw std::bad_alloc();
+	return address;
+}
+
 // View into libstdc++'s std::string
 struct GuestStdString {
 	static constexpr std::size_t SSO = 15;
@@ -112,6 +125,10 @@ struct GuestStdString {
 		else
 		{
 			this->ptr = machine.arena().malloc(len+1);
+			if (this->ptr == 0) {
+				this->set_string(machine, self, "");
+				throw std::bad_alloc();
+			}
 			this->len = len;
 			this->capacity = len;
 			if (use_memarray)
@@ -202,6 +219,8 @@ struct GuestRustString {
 		if (length > 0)
 		{
 			this->ptr = machine.arena().malloc(length);
+			if (this->ptr == 0)
+				throw std::bad_alloc();
 			this->capacity = length;
 			this->len = length;
 			if (use_memarray)
@@ -475,9 +494,14 @@ struct GuestStdVector {
 			return;
 
 		GuestStdVector<T> old_vec(std::move(*this));
-		// Allocate new memory
-		auto [array, self] = this->alloc(machine, elements);
-		(void)self;
+		// Allocate new memory, keeping the old when there is not enough
+		T* array = nullptr;
+		try {
+			array = std::get<0>(this->alloc(machine, elements));
+		} catch (...) {
+			*this = old_vec;
+			throw;
+		}
 		if (!old_vec.empty()) {
 			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
 			// Free the old vector manually (as we don't want to call the destructor(s))
@@ -537,7 +561,8 @@ private:
 	std::tuple<T*, address_t> alloc(Machine& machine, std::size_t elements) {
 		this->free(machine);
 
-		this->ptr_begin = machine.arena().malloc(elements * sizeof(T));
+		const address_t address = allocate_elements<T>(machine, elements);
+		this->ptr_begin = address;
 		this->ptr_end = this->ptr_begin;
 		this->ptr_capacity = this->ptr_begin + elements * sizeof(T);
 		return { machine.memory.template writable_memarray<T>(this->data(), elements), this->data() };
@@ -677,7 +702,7 @@ struct GuestRustVector {
 		: len(0), ptr(0), capacity(0)
 	{
 		if (elements > 0) {
-			this->ptr = machine.arena().malloc(elements * sizeof(T));
+			this->ptr = allocate_elements<T>(machine, elements);
 			this->capacity = elements;
 			this->len = elements;
 			T* array = machine.memory.template writable_memarray<T>(this->ptr, elements);
@@ -695,7 +720,7 @@ struct GuestRustVector {
 			return;
 
 		// Specialization for std::vector<std::string>
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = allocate_elements<T>(machine, vec.size());
 		this->capacity = vec.size();
 		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
@@ -760,7 +785,7 @@ struct GuestRustVector {
 		if (vec.empty())
 			return;
 
-		this->ptr = machine.arena().malloc(vec.size() * sizeof(T));
+		this->ptr = allocate_elements<T>(machine, vec.size());
 		this->capacity = vec.size();
 		this->len = vec.size();
 		T* array = machine.memory.template writable_memarray<T>(this->ptr, vec.size());
-- 
2.43.0


From f6056915ec1b2d36d8b9c78c3a626f3a2f51594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:32 +0000
Subject: [PATCH 47/73] fix: empty guest containers can be read and appended to

---
 lib/libloong/guest_datatypes.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index b965594..2fe41bf 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -389,6 +389,8 @@ struct GuestStdVector {
 	}
 
 	void append(Machine& machine, const T* values, std::size_t count) {
+		if (count == 0)
+			return;
 		if (size_bytes() + count * sizeof(T) > capacity_bytes())
 			this->reserve(machine, size() + count);
 		T* array = machine.memory.template writable_memarray<T>(this->data(), size() + count);
@@ -413,12 +415,16 @@ struct GuestStdVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), size());
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (size_bytes() > max_bytes)
 			throw std::runtime_error("Guest std::vector has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), size());
 	}
 
@@ -430,9 +436,8 @@ struct GuestStdVector {
 		if (size_bytes() > capacity_bytes())
 			throw std::runtime_error("Guest std::vector has size > capacity");
 		// Copy the vector from guest memory
-		const size_t elements = size();
-		const T* array = machine.memory.template memarray<T>(data(), elements);
-		return std::vector<T>(&array[0], &array[elements]);
+		const T* array = this->as_array(machine, SIZE_MAX);
+		return std::vector<T>(array, array + size());
 	}
 
 	/// @brief Specialization for std::string
@@ -442,7 +447,7 @@ struct GuestStdVector {
 		if constexpr (std::is_same_v<T, GuestStdString>) {
 			std::vector<std::string> vec;
 			const size_t elements = size();
-			const T* array = machine.memory.template memarray<T>(data(), elements);
+			const T* array = this->as_array(machine, SIZE_MAX);
 			vec.reserve(elements);
 			for (std::size_t i = 0; i < elements; i++)
 				vec.push_back(array[i].to_string(machine));
@@ -763,12 +768,16 @@ struct GuestRustVector {
 	T* as_array(Machine& machine, std::size_t max_bytes = 16UL << 20) {
 		if (len * sizeof(T) > max_bytes)
 			throw std::runtime_error("Guest Rust Vec has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template writable_memarray<T>(data(), len);
 	}
 
 	const T* as_array(const Machine& machine, std::size_t max_bytes = 16UL << 20) const {
 		if (len * sizeof(T) > max_bytes)
 			throw std::runtime_error("Guest Rust Vec has size > max_bytes");
+		if (this->empty())
+			return nullptr;
 		return machine.memory.template memarray<T>(data(), len);
 	}
 
-- 
2.43.0


From dbb31f8bd3ebbe5f7eaae0c23b06b12395859710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:48 +0000
Subject: [PATCH 48/73] fix: guest containers free what they own

---
 lib/libloong/guest_datatypes.hpp | 40 ++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 2fe41bf..53dfcc5 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -50,6 +50,22 @@ inline address_t allocate_elements(Machine& machine, std::size_t elements)
 	return address;
 }
 
+template <typename T, typename = void>
+struct has_free : std::false_type {};
+
+template <typename T>
+struct has_free<T, std::void_t<decltype(std::declval<T&>().free(std::declval<Machine&>()))>> : std::true_type {};
+
+// Free what an object in guest memory owns
+template <typename T>
+inline void free_guest_object(Machine& machine, T& object)
+{
+	if constexpr (has_free<T>::value)
+		object.free(machine);
+	else
+		object.~T();
+}
+
 // View into libstdc++'s std::string
 struct GuestStdString {
 	static constexpr std::size_t SSO = 15;
@@ -508,10 +524,11 @@ struct GuestStdVector {
 			throw;
 		}
 		if (!old_vec.empty()) {
-			std::copy(old_vec.as_array(machine), old_vec.as_array(machine) + old_vec.size(), array);
-			// Free the old vector manually (as we don't want to call the destructor(s))
-			machine.arena().free(old_vec.ptr_begin);
+			std::copy(old_vec.as_array(machine, SIZE_MAX), old_vec.as_array(machine, SIZE_MAX) + old_vec.size(), array);
 		}
+		// Free the old vector manually (as we don't want to call the destructor(s))
+		if (old_vec.ptr_begin != 0)
+			machine.arena().free(old_vec.ptr_begin);
 		this->ptr_end = this->ptr_begin + old_vec.size() * sizeof(T);
 		this->fix_elements(machine, 0);
 	}
@@ -574,11 +591,7 @@ private:
 	}
 
 	void free_element(Machine& machine, std::size_t index) {
-		if constexpr (std::is_same_v<T, GuestStdString> || is_guest_stdvector<T>::value) {
-			this->at(machine, index).free(machine);
-		} else {
-			this->at(machine, index).~T();
-		}
+		free_guest_object(machine, this->at(machine, index, SIZE_MAX));
 	}
 };
 
@@ -613,7 +626,8 @@ struct ScopedArenaObject {
 
 	~ScopedArenaObject() {
 		this->free_standard_types();
-		m_machine->arena().free(this->m_addr);
+		if (this->m_addr != 0)
+			m_machine->arena().free(this->m_addr);
 	}
 
 	T& operator*() { return *m_ptr; }
@@ -653,7 +667,11 @@ struct ScopedArenaObject {
 	}
 
 	ScopedArenaObject& operator=(ScopedArenaObject&& other) {
+		if (this == &other)
+			return *this;
 		this->free_standard_types();
+		if (this->m_addr != 0)
+			m_machine->arena().free(this->m_addr);
 		this->m_machine = other.m_machine;
 		this->m_addr = other.m_addr;
 		this->m_ptr = other.m_ptr;
@@ -669,7 +687,7 @@ private:
 			if (this->m_addr == 0) {
 				throw std::bad_alloc();
 			}
-			this->m_ptr = m_machine->memory.template writable_memarray<T>(this->m_addr, 1);
+			this->m_ptr = new (m_machine->memory.template writable_memarray<T>(this->m_addr, 1)) T();
 		}
 	}
 
@@ -805,6 +823,8 @@ struct GuestRustVector {
 
 	void free(Machine& machine) {
 		if (this->ptr != 0) {
+			for (std::size_t i = 0; i < size(); i++)
+				free_guest_object(machine, this->at(machine, i, SIZE_MAX));
 			machine.arena().free(this->ptr);
 			this->ptr = 0;
 			this->capacity = 0;
-- 
2.43.0


From 0b2a26fc9be932a27466a25eca8ab0bbdd02a431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:06 +0000
Subject: [PATCH 49/73] fix: GuestRustVector has the layout of a Rust Vec

---
 lib/libloong/guest_datatypes.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 53dfcc5..25b04d4 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -189,7 +189,7 @@ struct GuestStdString {
 	}
 };
 
-// View into Rust's String (same layout as Vec<u8>: ptr, capacity, len)
+// View into Rust's String (same layout as Vec<u8>: capacity, ptr, len)
 struct GuestRustString {
 	address_t capacity;
 	address_t ptr;
@@ -712,17 +712,17 @@ struct is_scoped_guest_object : std::false_type {};
 template <typename T>
 struct is_scoped_guest_object<ScopedArenaObject<T>> : std::true_type {};
 
-// View into Rust's Vec<T> (layout: ptr, capacity, len)
+// View into Rust's Vec<T> (layout: capacity, ptr, len)
 template <typename T>
 struct GuestRustVector {
-	address_t len;
-	address_t ptr;
 	address_t capacity;
+	address_t ptr;
+	address_t len;
 
-	constexpr GuestRustVector() noexcept : len(0), ptr(0), capacity(0) {}
+	constexpr GuestRustVector() noexcept : capacity(0), ptr(0), len(0) {}
 
 	GuestRustVector(Machine& machine, std::size_t elements)
-		: len(0), ptr(0), capacity(0)
+		: capacity(0), ptr(0), len(0)
 	{
 		if (elements > 0) {
 			this->ptr = allocate_elements<T>(machine, elements);
@@ -736,7 +736,7 @@ struct GuestRustVector {
 	}
 
 	GuestRustVector(Machine& machine, const std::vector<std::string>& vec)
-		: ptr(0), capacity(0), len(0)
+		: capacity(0), ptr(0), len(0)
 	{
 		static_assert(std::is_same_v<T, GuestRustString>, "GuestRustVector<T> must be a vector of GuestRustString");
 		if (vec.empty())
@@ -753,7 +753,7 @@ struct GuestRustVector {
 	}
 
 	GuestRustVector(Machine& machine, const std::vector<T>& vec)
-		: ptr(0), capacity(0), len(0)
+		: capacity(0), ptr(0), len(0)
 	{
 		if (!vec.empty())
 			this->assign(machine, vec);
-- 
2.43.0


From 4370240ff5f84ddfe95664dc632f7ee978cc54c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:24 +0000
Subject: [PATCH 50/73] fix: empty Rust containers are never null

---
 lib/libloong/guest_datatypes.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/lib/libloong/guest_datatypes.hpp b/lib/libloong/guest_datatypes.hpp
index 25b04d4..0e31dff 100644
--- a/lib/libloong/guest_datatypes.hpp
+++ b/lib/libloong/guest_datatypes.hpp
@@ -195,10 +195,13 @@ struct GuestRustString {
 	address_t ptr;
 	address_t len;
 
-	constexpr GuestRustString() noexcept : capacity(0), ptr(0), len(0) {}
+	// Rust pointers are never null: Without capacity they only have the right alignment
+	static constexpr address_t DANGLING = alignof(char);
+
+	constexpr GuestRustString() noexcept : capacity(0), ptr(DANGLING), len(0) {}
 
 	GuestRustString(Machine& machine, std::string_view str = "")
-		: capacity(0), ptr(0), len(0)
+		: capacity(0), ptr(DANGLING), len(0)
 	{
 		this->set_string(machine, str);
 	}
@@ -234,9 +237,7 @@ struct GuestRustString {
 
 		if (length > 0)
 		{
-			this->ptr = machine.arena().malloc(length);
-			if (this->ptr == 0)
-				throw std::bad_alloc();
+			this->ptr = allocate_elements<char>(machine, length);
 			this->capacity = length;
 			this->len = length;
 			if (use_memarray)
@@ -260,10 +261,10 @@ struct GuestRustString {
 
 	void free(Machine& machine)
 	{
-		if (ptr != 0) {
+		if (capacity != 0) {
 			machine.arena().free(ptr);
 		}
-		this->ptr = 0;
+		this->ptr = DANGLING;
 		this->capacity = 0;
 		this->len = 0;
 	}
@@ -719,10 +720,13 @@ struct GuestRustVector {
 	address_t ptr;
 	address_t len;
 
-	constexpr GuestRustVector() noexcept : capacity(0), ptr(0), len(0) {}
+	// Rust pointers are never null: Without capacity they only have the right alignment
+	static constexpr address_t DANGLING = alignof(T);
+
+	constexpr GuestRustVector() noexcept : capacity(0), ptr(DANGLING), len(0) {}
 
 	GuestRustVector(Machine& machine, std::size_t elements)
-		: capacity(0), ptr(0), len(0)
+		: capacity(0), ptr(DANGLING), len(0)
 	{
 		if (elements > 0) {
 			this->ptr = allocate_elements<T>(machine, elements);
@@ -736,7 +740,7 @@ struct GuestRustVector {
 	}
 
 	GuestRustVector(Machine& machine, const std::vector<std::string>& vec)
-		: capacity(0), ptr(0), len(0)
+		: capacity(0), ptr(DANGLING), len(0)
 	{
 		static_assert(std::is_same_v<T, GuestRustString>, "GuestRustVector<T> must be a vector of GuestRustString");
 		if (vec.empty())
@@ -753,7 +757,7 @@ struct GuestRustVector {
 	}
 
 	GuestRustVector(Machine& machine, const std::vector<T>& vec)
-		: capacity(0), ptr(0), len(0)
+		: capacity(0), ptr(DANGLING), len(0)
 	{
 		if (!vec.empty())
 			this->assign(machine, vec);
@@ -822,11 +826,11 @@ struct GuestRustVector {
 	void fix_addresses(Machine&, address_t) {} // No-op
 
 	void free(Machine& machine) {
-		if (this->ptr != 0) {
+		if (this->capacity != 0) {
 			for (std::size_t i = 0; i < size(); i++)
 				free_guest_object(machine, this->at(machine, i, SIZE_MAX));
 			machine.arena().free(this->ptr);
-			this->ptr = 0;
+			this->ptr = DANGLING;
 			this->capacity = 0;
 			this->len = 0;
 		}
-- 
2.43.0


From 0343a51514be81ff44833e2b8729d9ecd770ff39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:32 +0000
Subject: [PATCH 51/73] fix: sigaltstack and rt_sigaction read the new setting
 before reporting the old one

---
 lib/libloong/linux/syscalls.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 99ec8b0..0f8804c 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -354,14 +354,16 @@ namespace loongarch
 
 		auto& stack = machine.signals().per_thread(machine.gettid()).stack;
 
+		// Read the new stack first: old_ss may be the same buffer
+		auto new_stack = stack;
+		if (ss != 0x0) {
+			machine.memory.copy_from_guest(&new_stack, ss, sizeof(new_stack));
+		}
 		// Return old stack if requested
 		if (old_ss != 0x0) {
 			machine.memory.copy_to_guest(old_ss, &stack, sizeof(stack));
 		}
-		// Set new stack if provided
-		if (ss != 0x0) {
-			machine.memory.copy_from_guest(&stack, ss, sizeof(stack));
-		}
+		stack = new_stack;
 		machine.set_result(0);
 		sysprint(machine, "sigaltstack(ss=0x%llx, old_ss=0x%llx) = 0\n",
 			static_cast<uint64_t>(ss), static_cast<uint64_t>(old_ss));
@@ -383,7 +385,12 @@ namespace loongarch
 		};
 
 		kernel_sigaction sa{};
+		kernel_sigaction new_sa{};
 
+		// Read the new action first: old_action may be the same buffer
+		if (action != 0x0) {
+			machine.memory.copy_from_guest(&new_sa, action, sizeof(new_sa));
+		}
 		// Return old action if requested
 		if (old_action != 0x0) {
 			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler & ~address_t(0x3);
@@ -393,10 +400,9 @@ namespace loongarch
 		}
 		// Set new action if provided
 		if (action != 0x0) {
-			machine.memory.copy_from_guest(&sa, action, sizeof(sa));
-			sigact.handler  = sa.sa_handler & ~address_t(0x3);
-			sigact.altstack = (sa.sa_flags & LINUX_SA_ONSTACK) != 0;
-			sigact.mask     = sa.sa_mask;
+			sigact.handler  = new_sa.sa_handler & ~address_t(0x3);
+			sigact.altstack = (new_sa.sa_flags & LINUX_SA_ONSTACK) != 0;
+			sigact.mask     = new_sa.sa_mask;
 		}
 		machine.set_result(0);
 		sysprint(machine, "rt_sigaction(sig=%d, action=0x%llx, old_action=0x%llx) = 0\n",
-- 
2.43.0


From 12d5b5b9b1d24a8471feeb591ded5838de3986ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 52/73] fix: laemu passes options behind the program on to the
 guest

---
 emulator/src/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 01d7ce0..31d8bf6 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -323,7 +323,7 @@ static EmulatorOptions parse_arguments(int argc, char* argv[])
 	};
 
 	int opt;
-	while ((opt = getopt_long(argc, argv, "hvstf:m:nTO:", long_options, nullptr)) != -1) {
+	while ((opt = getopt_long(argc, argv, "+hvstf:m:nTO:", long_options, nullptr)) != -1) {
 		switch (opt) {
 		case 'h':
 			print_help(argv[0]);
-- 
2.43.0


From 3656c6745cf45c30dc7abd64af10855bb52deca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 53/73] fix: laemu reports failure for 32-bit programs

---
 emulator/src/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 31d8bf6..1ed72fa 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -484,6 +484,7 @@ int main(int argc, char* argv[])
 		// Run program with detected architecture
 		if (is_32bit) {
 			fprintf(stderr, "Error: 32-bit LoongArch is not supported!\n");
+			return 1;
 		} else { // is_64bit
 			return run_program(binary, opts);
 		}
-- 
2.43.0


From 68552c33b5ab6d36e3cb6dac398fe5ae0d33e32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:08 +0000
Subject: [PATCH 54/73] fix: laemu reports an arena it cannot map instead of
 crashing

---
 emulator/src/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emulator/src/main.cpp b/emulator/src/main.cpp
index 1ed72fa..922b785 100644
--- a/emulator/src/main.cpp
+++ b/emulator/src/main.cpp
@@ -136,6 +136,11 @@ static int run_program(const std::vector<uint8_t>& binary, const EmulatorOptions
 	void* arena_ptr = _aligned_malloc(custom_arena.total_size, 4096u);
 #else
 	void* arena_ptr = mmap(nullptr, custom_arena.total_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
+#endif
+#ifndef _WIN32
+	if (arena_ptr == MAP_FAILED) {
+		arena_ptr = nullptr;
+	}
 #endif
 	if (!arena_ptr) {
 		throw std::runtime_error("Failed to allocate custom arena with aligned_alloc");
-- 
2.43.0


From 2a4cceb7ac90cdba5be6601927f346d2bbdfbd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 55/73] fix: abort() ends a threaded program with an exception
 too

---
 lib/libloong/linux/syscalls_threads.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index a95d698..c6b3f33 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -153,6 +153,10 @@ namespace loongarch
 					machine.set_result(0);
 					return;
 				} else if (machine.sigaction(sig).is_unset()) {
+					// An unhandled SIGABRT ends the program, see abort()
+					if (sig == 6) {
+						throw MachineException(GUEST_ABORT, "Program aborted via abort()");
+					}
 					const bool myself = (thread == machine.threads().get_thread());
 					if (!thread->exit()) {
 						if (!myself)
-- 
2.43.0


From 88f6b01a2f45ca82c7538ad117799e6cc1941b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 56/73] fix: debugger calls pass more than eight arguments on
 the stack

---
 lib/libloong/debug.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index ae93f56..0b25722 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -177,10 +177,18 @@ namespace loongarch
 		this->machine.cpu.jump(func_addr);
 		// Push arguments onto stack
 		address_t sp = this->machine.memory.stack_address();
-		int reg = 0;
+		size_t reg = 0;
+		std::vector<address_t> stack_args;
 		for (const auto& argument : arguments) {
 			address_t arg_addr = this->machine.stack_push(sp, argument.c_str(), argument.size() + 1);
-			this->machine.cpu.reg(REG_A0 + reg++) = arg_addr;
+			if (reg < 8)
+				this->machine.cpu.reg(REG_A0 + reg++) = arg_addr;
+			else
+				stack_args.push_back(arg_addr);
+		}
+		// Arguments that don't fit in registers are passed on the stack
+		if (!stack_args.empty()) {
+			this->machine.stack_push(sp, stack_args.data(), stack_args.size() * sizeof(address_t));
 		}
 		this->machine.cpu.reg(REG_SP) = sp;
 		// Simulate with debugging
-- 
2.43.0


From b0cf257f1a414dc4ae1b0671b5cc578e0979e95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 57/73] fix: the budget of a debugger call does not depend on
 earlier runs

---
 lib/libloong/debug.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/debug.cpp b/lib/libloong/debug.cpp
index 0b25722..06edffa 100644
--- a/lib/libloong/debug.cpp
+++ b/lib/libloong/debug.cpp
@@ -191,7 +191,8 @@ namespace loongarch
 			this->machine.stack_push(sp, stack_args.data(), stack_args.size() * sizeof(address_t));
 		}
 		this->machine.cpu.reg(REG_SP) = sp;
-		// Simulate with debugging
+		// Simulate with debugging, with a budget of its own
+		this->machine.set_instruction_counter(0);
 		simulate(max_instructions);
 		// Return the function return value (if any)
 		return this->machine.template return_value<long>();
-- 
2.43.0


From 8ad82df8c857474669ad5c5e8e9cfa60ca1c8640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 58/73] fix: segments of different arena sizes are not the same
 shared segment

---
 lib/libloong/shared_exec_segment.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/shared_exec_segment.hpp b/lib/libloong/shared_exec_segment.hpp
index b0830c7..e8e2d5e 100644
--- a/lib/libloong/shared_exec_segment.hpp
+++ b/lib/libloong/shared_exec_segment.hpp
@@ -23,11 +23,12 @@ namespace loongarch
 		static SegmentKey from(const DecodedExecuteSegment& segment, uint64_t arena_size);
 
 		bool operator==(const SegmentKey& other) const {
-			return pc == other.pc && crc == other.crc;
+			return pc == other.pc && crc == other.crc && arena_size == other.arena_size;
 		}
 
 		bool operator<(const SegmentKey& other) const {
-			return pc < other.pc || (pc == other.pc && crc < other.crc);
+			return pc < other.pc || (pc == other.pc && (crc < other.crc
+				|| (crc == other.crc && arena_size < other.arena_size)));
 		}
 	};
 
-- 
2.43.0


From 0ee92d2a0364a4146368b5a584df8a7ebb640459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 59/73] fix: translated and live-patched instructions are
 counted once, and live-patching only replaces bytecodes

---
 lib/libloong/bytecode_impl.cpp                | 21 ++++++++-----------
 lib/libloong/decoder_cache.hpp                |  5 +++++
 lib/libloong/threaded_dispatch.cpp            |  6 +++++-
 lib/libloong/threaded_inaccurate_dispatch.cpp |  3 +++
 lib/libloong/tr_compiler.cpp                  |  7 +++----
 5 files changed, 25 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/bytecode_impl.cpp b/lib/libloong/bytecode_impl.cpp
index 84cd4ab..83bcf2b 100644
--- a/lib/libloong/bytecode_impl.cpp
+++ b/lib/libloong/bytecode_impl.cpp
@@ -1058,9 +1058,10 @@ INSTRUCTION(LA64_BC_FUNCJUMP, execute_function_jump)
 // LA64_BC_TRANSLATOR is implemented in each dispatch file separately
 
 INSTRUCTION(LA64_BC_LIVEPATCH, execute_livepatch) {
-	switch (DECODER().handler_idx) {
-	case 0: { // Live-patch binary translation
 #ifdef LA_BINARY_TRANSLATION
+	{ // Live-patch binary translation
+		// The patched decoder cache was made visible before the bytecode
+		(void)__atomic_load_n(&DECODER().bytecode, __ATOMIC_ACQUIRE);
 		// Special bytecode that does not read any decoder data
 		// 1. Wind back PC to the current decoder position
 		pc = RECONSTRUCT_PC();
@@ -1071,20 +1072,16 @@ INSTRUCTION(LA64_BC_LIVEPATCH, execute_livepatch) {
 #  else
 		// 2. Find the correct decoder pointer in the patched decoder cache
 		exec_decoder = exec->patched_decoder_cache() - (exec->exec_begin() >> DecoderCache::SHIFT);
+		UNCOUNT_BLOCK(); // The block is counted again
 		goto continue_segment;
 #  endif
 		// 3. Execute the instruction
 		EXECUTE_INSTR();
-#else
-		// Invalid handler
-		DECODER().set_bytecode(LA64_BC_INVALID);
-		DECODER().handler_idx = 0;
-#endif
-	}	break;
-	default:
-		// Invalid handler
-		DECODER().set_bytecode(LA64_BC_INVALID);
-		DECODER().handler_idx = 0;
 	}
+#else
+	// Invalid handler
+	DECODER().set_bytecode(LA64_BC_INVALID);
+	DECODER().handler_idx = 0;
 	EXECUTE_INSTR();
+#endif
 }
diff --git a/lib/libloong/decoder_cache.hpp b/lib/libloong/decoder_cache.hpp
index 035a356..b5cae9c 100644
--- a/lib/libloong/decoder_cache.hpp
+++ b/lib/libloong/decoder_cache.hpp
@@ -19,7 +19,12 @@ namespace loongarch
 		unsigned instruction_count() const noexcept { return (block_bytes / 4u) + 1u; }
 
 		// Bytecode accessors for threaded dispatch
+#ifdef LA_BINARY_TRANSLATION
+		// Bytecodes can be live-patched from another thread
+		uint8_t get_bytecode() const noexcept { return __atomic_load_n(&bytecode, __ATOMIC_RELAXED); }
+#else
 		uint8_t get_bytecode() const noexcept { return bytecode; }
+#endif
 		void set_bytecode(uint8_t bc) noexcept { bytecode = bc; }
 
 		// Handler accessors
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index f0ab851..390bab3 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -13,6 +13,8 @@
 #define VIEW_INSTR() auto instr = la_instruction{decoder->instr};
 #define EXECUTE_INSTR() \
 	goto *computed_opcode[decoder->get_bytecode()]
+#define UNCOUNT_BLOCK() \
+	counter -= DECODER().instruction_count()
 #define NEXT_INSTR() \
 	decoder += 1; \
 	EXECUTE_INSTR();
@@ -119,7 +121,8 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 
 	// Call the binary translated function
 	// It returns updated instruction counter values
-	const auto result = handler(CPU(), counter, max_counter, RECONSTRUCT_PC());
+	// The translated code counts its own instructions
+	const auto result = handler(CPU(), counter - DECODER().instruction_count(), max_counter, RECONSTRUCT_PC());
 
 	// Update instruction counter and max counter
 	counter = result.ic;
@@ -151,6 +154,7 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 		#undef VIEW_INSTR
 		#undef NEXT_INSTR
 		#undef NEXT_BLOCK
+		#undef UNCOUNT_BLOCK
 		#undef EXECUTE_INSTR
 
 new_execute_segment:
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 92006dc..1e77671 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -13,6 +13,8 @@
 #define VIEW_INSTR() auto instr = la_instruction{decoder->instr};
 #define EXECUTE_INSTR() \
 	goto *computed_opcode[decoder->get_bytecode()];
+#define UNCOUNT_BLOCK() \
+	/* Instructions are not counted */
 #define NEXT_INSTR() \
 	decoder += 1; \
 	EXECUTE_INSTR();
@@ -133,6 +135,7 @@ INSTRUCTION(LA64_BC_STOP, la64_stop)
 		#undef VIEW_INSTR
 		#undef NEXT_INSTR
 		#undef NEXT_BLOCK
+		#undef UNCOUNT_BLOCK
 		#undef EXECUTE_INSTR
 
 new_execute_segment:
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 62c6433..6668ad4 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -244,10 +244,9 @@ namespace loongarch
 
 			if (exec.is_within(addr)) {
 				auto& entry = *exec.pc_relative_decoder_cache(addr);
-				/// XXX: Set the livepatch bytecode atomically
-				/// NOTE: handler_idx=0 means binary translation livepatch
-				entry.set_bytecode(LA64_BC_LIVEPATCH);
-				entry.handler_idx = 0;
+				// Other threads may be executing this entry, so only the
+				// bytecode is replaced. The rest may already be in use.
+				__atomic_store_n(&entry.bytecode, uint8_t(LA64_BC_LIVEPATCH), __ATOMIC_RELEASE);
 			}
 		}
 
-- 
2.43.0


From cde11031443949d466537e8cd9174c8559723d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 60/73] fix: translated integer instructions match the
 interpreter

---
 lib/libloong/tr_emit.cpp | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 02af911..82e7fe1 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -767,7 +767,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		case InstrId::PCADDU18I: {
 			if (instr.ri20.rd != 0) {
 				int32_t si20 = InstructionHelpers::sign_extend_20(instr.ri20.imm);
-				int64_t offset = (int64_t)(si20 << 18);
+				int64_t offset = (int64_t)si20 * (int64_t(1) << 18);
 				emit.add_code("  " + emit.reg(instr.ri20.rd) + " = " +
 					hex_address(emit.pc() + offset) + "ULL;");
 			}
@@ -832,12 +832,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 					// Optimize ADDI_W rd, r0, imm to rd = imm_se
 					emit.add_code("  " + emit.reg(instr.ri12.rd) + " = " +
 						std::to_string(imm_se) + ";");
-				} else if (instr.ri12.rd == instr.ri12.rj) {
-					emit.add_code("  " + emit.reg(instr.ri12.rd) + " += " +
-						std::to_string(imm_se) + ";");
 				} else {
-					emit.add_code("  " + emit.reg(instr.ri12.rd) + " = (int32_t)" +
-						emit.reg(instr.ri12.rj) + " + " + std::to_string(imm_se) + ";");
+					emit.add_code("  " + emit.reg(instr.ri12.rd) + " = (int32_t)(" +
+						emit.reg(instr.ri12.rj) + " + " + std::to_string(imm_se) + ");");
 				}
 			}
 			break;
@@ -1030,14 +1027,14 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int32_t a = (int32_t)" + emit.reg(instr.r3.rj) +
 					", b = (int32_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT32_MIN && b == -1)) ? (int64_t)(a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0) ? (int32_t)((int64_t)a / b) : 0; }");
 			}
 			break;
 		case InstrId::MOD_W:
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int32_t a = (int32_t)" + emit.reg(instr.r3.rj) +
 					", b = (int32_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT32_MIN && b == -1)) ? (int64_t)(a % b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0) ? (int32_t)((int64_t)a % b) : 0; }");
 			}
 			break;
 		case InstrId::DIV_WU:
@@ -1058,14 +1055,14 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int64_t a = (int64_t)" + emit.reg(instr.r3.rj) +
 					", b = (int64_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT64_MIN && b == -1)) ? (a / b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b == -1) ? 0ULL - (uint64_t)a : (b != 0) ? (uint64_t)(a / b) : 0; }");
 			}
 			break;
 		case InstrId::MOD_D:
 			if (instr.r3.rd != 0) {
 				emit.add_code("  { int64_t a = (int64_t)" + emit.reg(instr.r3.rj) +
 					", b = (int64_t)" + emit.reg(instr.r3.rk) + ";");
-				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && !(a == INT64_MIN && b == -1)) ? (a % b) : 0; }");
+				emit.add_code("    " + emit.reg(instr.r3.rd) + " = (b != 0 && b != -1) ? (a % b) : 0; }");
 			}
 			break;
 		case InstrId::DIV_DU:
@@ -1361,12 +1358,12 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			if (instr.r3.rd != 0) {
 				uint32_t sa3 = (instr.whole >> 15) & 0x7;
 				if (sa3 == 0) {
-					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rj) + ";");
+					emit.add_code("  " + emit.reg(instr.r3.rd) + " = " + emit.reg(instr.r3.rk) + ";");
 				} else {
 					uint32_t shift = sa3 * 8;
 					emit.add_code("  " + emit.reg(instr.r3.rd) + " = (" +
-						emit.reg(instr.r3.rk) + " << " + std::to_string(64 - shift) + ") | (" +
-						emit.reg(instr.r3.rj) + " >> " + std::to_string(shift) + ");");
+						emit.reg(instr.r3.rk) + " << " + std::to_string(shift) + ") | (" +
+						emit.reg(instr.r3.rj) + " >> " + std::to_string(64 - shift) + ");");
 				}
 			}
 			break;
@@ -1378,7 +1375,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				if (msbw >= lsbw) {
 					uint32_t width = msbw - lsbw + 1;
-					uint32_t mask = ((1U << width) - 1) << lsbw;  // Precomputed at translation time
+					uint32_t mask = (uint32_t)((1ULL << width) - 1) << lsbw;  // Precomputed at translation time
 					uint32_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(((uint32_t)" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "U) | (((uint32_t)" +
@@ -1393,7 +1390,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				if (msbd >= lsbd) {
 					uint32_t width = msbd - lsbd + 1;
-					uint64_t mask = ((1ULL << width) - 1) << lsbd;  // Precomputed at translation time
+					uint64_t mask = ((width < 64) ? (1ULL << width) - 1 : ~0ULL) << lsbd;  // Precomputed at translation time
 					uint64_t inv_mask = ~mask;  // Precomputed at translation time
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (" +
 						emit.reg(instr.ri16.rd) + " & " + std::to_string(inv_mask) + "ULL) | ((" +
@@ -1407,7 +1404,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbw = (instr.whole >> 16) & 0x1F;
 				uint32_t lsbw = (instr.whole >> 10) & 0x1F;
 				uint32_t width = msbw - lsbw + 1;
-				uint32_t mask = (1U << width) - 1;  // Precomputed at translation time
+				uint32_t mask = (uint32_t)((1ULL << (width & 63)) - 1);  // Precomputed at translation time
 				if (lsbw == 0) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " = (int32_t)(" +
 						emit.reg(instr.ri16.rj) + " & " + std::to_string(mask) + "U);");
@@ -1423,7 +1420,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				uint32_t msbd = (instr.whole >> 16) & 0x3F;
 				uint32_t lsbd = (instr.whole >> 10) & 0x3F;
 				uint32_t width = msbd - lsbd + 1;
-				uint64_t mask = (1ULL << width) - 1;  // Precomputed at translation time
+				uint64_t mask = (width < 64) ? (1ULL << width) - 1 : ~0ULL;  // Precomputed at translation time
 				if (lsbd == 0 && instr.ri16.rd == instr.ri16.rj) {
 					emit.add_code("  " + emit.reg(instr.ri16.rd) + " &= " +
 						std::to_string(mask) + "ULL;");
-- 
2.43.0


From e08aba7ec5c1a35c4da7dc7d997199519969c041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 61/73] fix: translated vector loads and additions clear the
 same elements as the interpreter

---
 lib/libloong/tr_emit.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 82e7fe1..a8f87f4 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -224,6 +224,12 @@ struct Emitter
 		return "cpu->vr[" + std::to_string(idx) + "].du[0]";
 	}
 
+	// Clear the element above a scalar, as the interpreter does after a load
+	void emit_clear(unsigned idx, const char* element) {
+		const std::string vr = is_cached_fpreg(idx) ? cached_fpregname(idx) + "->" : "cpu->vr[" + std::to_string(idx) + "].";
+		add_code("  " + vr + element + " = 0;");
+	}
+
 	// Emit a simple arithmetic/logic instruction
 	void emit_alu_rri(const char* op, unsigned rd, unsigned rj, int64_t imm) {
 		if (rd == 0) return; // Writing to zero register is NOP
@@ -1461,6 +1467,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr = emit.arena_offset(addr);
 			emit.emit_load_bounds_check(addr);
 			emit.add_code("  " + emit.freg_wu(instr.ri12.rd) + " = *(uint32_t*)" + ptr + ";");
+			emit.emit_clear(instr.ri12.rd, "wu[1]");
+			emit.emit_clear(instr.ri12.rd, "du[1]");
 			break;
 		}
 		case InstrId::FLD_D: {
@@ -1470,6 +1478,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr = emit.arena_offset(addr);
 			emit.emit_load_bounds_check(addr);
 			emit.add_code("  " + emit.freg_du(instr.ri12.rd) + " = *(uint64_t*)" + ptr + ";");
+			emit.emit_clear(instr.ri12.rd, "du[1]");
 			break;
 		}
 		case InstrId::FST_S: {
@@ -1498,6 +1507,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr = emit.arena_offset(addr);
 			emit.emit_load_bounds_check(addr);
 			emit.add_code("  " + emit.freg_wu(instr.r3.rd) + " = *(uint32_t*)" + ptr + ";");
+			emit.emit_clear(instr.r3.rd, "wu[1]");
 			break;
 		}
 		case InstrId::FLDX_D: {
@@ -1868,7 +1878,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr1 = emit.arena_offset(addr + " + 8");
 			emit.add_code("  { lasx_reg* vr_ptr = &cpu->vr[" + std::to_string(instr.ri12.rd) + "];");
 			emit.add_code("    vr_ptr->du[0] = *(uint64_t*)" + ptr0 + ";");
-			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + "; }");
+			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + ";");
+			// LSX instructions zero-extend to 256 bits
+			emit.add_code("    vr_ptr->du[2] = 0; vr_ptr->du[3] = 0; }");
 			break;
 		}
 		case InstrId::VST: {
@@ -1891,7 +1903,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			std::string ptr1 = emit.arena_offset(addr + " + 8");
 			emit.add_code("  { lasx_reg* vr_ptr = &cpu->vr[" + std::to_string(instr.r3.rd) + "];");
 			emit.add_code("    vr_ptr->du[0] = *(uint64_t*)" + ptr0 + ";");
-			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + "; }");
+			emit.add_code("    vr_ptr->du[1] = *(uint64_t*)" + ptr1 + ";");
+			// LSX instructions zero-extend to 256 bits
+			emit.add_code("    vr_ptr->du[2] = 0; vr_ptr->du[3] = 0; }");
 			break;
 		}
 		case InstrId::VSTX: {
@@ -1912,7 +1926,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			emit.add_code("    const lasx_reg* vj_ptr = &cpu->vr[" + std::to_string(instr.r4.rj) + "];");
 			emit.add_code("    const lasx_reg* vk_ptr = &cpu->vr[" + std::to_string(instr.r4.rk) + "];");
 			emit.add_code("    vd_ptr->df[0] = vj_ptr->df[0] + vk_ptr->df[0];");
-			emit.add_code("    vd_ptr->df[1] = vj_ptr->df[1] + vk_ptr->df[1]; }");
+			emit.add_code("    vd_ptr->df[1] = vj_ptr->df[1] + vk_ptr->df[1];");
+			emit.add_code("    vd_ptr->du[2] = 0; vd_ptr->du[3] = 0; }");
 			break;
 		}
 		case InstrId::VFMADD_D: {
-- 
2.43.0


From 104e03559abc8f2c2fff5d4f0140fd7d2a00e51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 62/73] fix: exceptions in fallback handlers do not unwind
 through translated code, and translated FP matches the interpreter

---
 lib/libloong/tr_api.cpp      | 23 ++++-------
 lib/libloong/tr_compiler.cpp | 26 +++++++++++++
 lib/libloong/tr_emit.cpp     | 75 ++++++++++++++++++++----------------
 3 files changed, 75 insertions(+), 49 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index c9f6134..6931c11 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -60,18 +60,6 @@ typedef int64_t saddr_t;
 
 #ifdef __TINYC__
 #define UNREACHABLE() /**/
-static inline float fminf(float x, float y) {
-	return (x < y) ? x : y;
-}
-static inline double fmin(double x, double y) {
-	return (x < y) ? x : y;
-}
-static inline float fmaxf(float x, float y) {
-	return (x >= y) ? x : y;
-}
-static inline double fmax(double x, double y) {
-	return (x >= y) ? x : y;
-}
 static inline uint32_t do_bswap32(uint32_t x) {
 	return (x << 24 | (x & 0xFF00) << 8 | (x & 0xFF0000) >> 8 | x >> 24);
 }
@@ -92,10 +80,6 @@ static inline uint32_t do_bswap32(uint32_t x) {
 #define do_ctzl(x) __builtin_ctzl(x)
 #define do_cpop(x) __builtin_popcount(x)
 #define do_cpopl(x) __builtin_popcountl(x)
-#define fminf(x, y) __builtin_fminf(x, y)
-#define fmin(x, y) __builtin_fmin(x, y)
-#define fmaxf(x, y) __builtin_fmaxf(x, y)
-#define fmax(x, y) __builtin_fmax(x, y)
 #endif
 
 #ifdef __HAVE_BUILTIN_SPECULATION_SAFE_VALUE
@@ -147,8 +131,15 @@ static struct CallbackTable {
 	void (*trace) (CPU*, const char*, addr_t, uint32_t);
 	void (*log) (CPU*, addr_t, const char*);
 	void (*fallback) (CPU*, addr_t, uint32_t);
+	int  (*execute) (CPU*, handler_t, uint32_t, addr_t);
 	float  (*sqrtf32)(float);
 	double (*sqrtf64)(double);
+	float  (*fmaf32)(float, float, float);
+	double (*fmaf64)(double, double, double);
+	float  (*fmaxf32)(float, float);
+	double (*fmaxf64)(double, double);
+	float  (*fminf32)(float, float);
+	double (*fminf64)(double, double);
 	int (*clz) (uint32_t);
 	int (*clzl) (uint64_t);
 	int (*ctz) (uint32_t);
diff --git a/lib/libloong/tr_compiler.cpp b/lib/libloong/tr_compiler.cpp
index 6668ad4..0ff6b57 100644
--- a/lib/libloong/tr_compiler.cpp
+++ b/lib/libloong/tr_compiler.cpp
@@ -2,6 +2,7 @@
 #include "decoder_cache.hpp"
 #include "threaded_bytecodes.hpp"
 #include "tr_types.hpp"
+#include <cmath>
 #include <cstring>
 #include <atomic>
 #include <mutex>
@@ -165,8 +166,15 @@ namespace loongarch
 			void (*trace) (CPU&, const char*, address_t, uint32_t);
 			void (*log) (CPU&, address_t, const char*);
 			void (*fallback) (CPU&, address_t, uint32_t);
+			int  (*execute) (CPU&, DecoderData::handler_t, uint32_t, address_t);
 			float  (*sqrtf32)(float);
 			double (*sqrtf64)(double);
+			float  (*fmaf32)(float, float, float);
+			double (*fmaf64)(double, double, double);
+			float  (*fmaxf32)(float, float);
+			double (*fmaxf64)(double, double);
+			float  (*fminf32)(float, float);
+			double (*fminf64)(double, double);
 			int (*clz) (uint32_t);
 			int (*clzl) (uint64_t);
 			int (*ctz) (uint32_t);
@@ -214,8 +222,26 @@ namespace loongarch
 			decoded.printer(buffer, sizeof(buffer), cpu, la_instruction{instr}, pc);
 			printf("[trace] PC=0x%lx: fallback 0x%08x: %s\n", (unsigned long)pc, instr, buffer);
 		};
+		callback_table.execute = [](CPU& cpu, DecoderData::handler_t handler, uint32_t instr, address_t pc) -> int {
+			try {
+				cpu.registers().pc = pc;
+				handler(cpu, la_instruction{instr});
+				cpu.reg(0) = 0; // R0 is hardwired to zero
+				return 0;
+			} catch (...) {
+				cpu.machine().set_current_exception(std::current_exception());
+				cpu.machine().stop();
+				return -1; // Indicate error
+			}
+		};
 		callback_table.sqrtf32 = [](float x) { return __builtin_sqrtf(x); };
 		callback_table.sqrtf64 = [](double x) { return __builtin_sqrt(x); };
+		callback_table.fmaf32 = [](float x, float y, float z) { return std::fma(x, y, z); };
+		callback_table.fmaf64 = [](double x, double y, double z) { return std::fma(x, y, z); };
+		callback_table.fmaxf32 = [](float x, float y) { return std::fmax(x, y); };
+		callback_table.fmaxf64 = [](double x, double y) { return std::fmax(x, y); };
+		callback_table.fminf32 = [](float x, float y) { return std::fmin(x, y); };
+		callback_table.fminf64 = [](double x, double y) { return std::fmin(x, y); };
 		callback_table.clz = [](uint32_t x) { return __builtin_clz(x); };
 		callback_table.clzl = [](uint64_t x) { return __builtin_clzl(x); };
 		callback_table.ctz = [](uint32_t x) { return __builtin_ctz(x); };
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index a8f87f4..26bd94a 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -428,7 +428,15 @@ struct Emitter
 			add_code("  api.fallback(cpu, " + hex_address(pc()) + "ULL, " + hex_address(instr_bits) + ");");
 		}
 		const uintptr_t handler_func = reinterpret_cast<uintptr_t>(instr.handler);
-		add_code("  ((handler_t)" + hex_address(handler_func) + ")(cpu, " + hex_address(instr_bits) + ");");
+		// The handler can throw, which must not unwind through translated code
+		std::string count;
+		if (m_instr_counter > 0 && !tinfo.options.translate_ignore_instruction_limit)
+			count = " + " + std::to_string(m_instr_counter);
+		add_code("  if (UNLIKELY(api.execute(cpu, (handler_t)" + hex_address(handler_func) + ", " +
+			hex_address(instr_bits) + ", " + hex_address(pc()) + "ULL))) {");
+		if (vr_only)
+			store_all_registers();
+		add_code("    return (ReturnValues){ic" + count + ", 0}; }");
 		// Reload cached registers after handler returns
 		if (!vr_only) {
 			reload_all_registers();
@@ -1582,33 +1590,33 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		// Floating-point min/max
 		case InstrId::FMAX_D:
 			emit.add_code("  " + emit.freg64(instr.r3.rd) + " = "
-				"fmax(" + emit.freg64(instr.r3.rj) + ", "
+				"api.fmaxf64(" + emit.freg64(instr.r3.rj) + ", "
 				+ emit.freg64(instr.r3.rk) + ");");
 			break;
 		case InstrId::FMIN_D:
 			emit.add_code("  " + emit.freg64(instr.r3.rd) + " = "
-				"fmin(" + emit.freg64(instr.r3.rj) + ", "
+				"api.fminf64(" + emit.freg64(instr.r3.rj) + ", "
 				+ emit.freg64(instr.r3.rk) + ");");
 			break;
 		case InstrId::FMAX_S:
 			emit.add_code("  " + emit.freg32(instr.r3.rd) + " = "
-				"fmaxf(" + emit.freg32(instr.r3.rj) + ", "
+				"api.fmaxf32(" + emit.freg32(instr.r3.rj) + ", "
 				+ emit.freg32(instr.r3.rk) + ");");
 			break;
 		case InstrId::FMIN_S:
 			emit.add_code("  " + emit.freg32(instr.r3.rd) + " = "
-				"fminf(" + emit.freg32(instr.r3.rj) + ", "
+				"api.fminf32(" + emit.freg32(instr.r3.rj) + ", "
 				+ emit.freg32(instr.r3.rk) + ");");
 			break;
 
 		// Floating-point unary operations
 		case InstrId::FABS_D:
-			emit.add_code("  " + emit.freg64(instr.r3.rd) + " = "
-				"(" + emit.freg64(instr.r3.rj) + " >= 0.0) ? " + emit.freg64(instr.r3.rj) + " : -" + emit.freg64(instr.r3.rj) + ";");
+			emit.add_code("  " + emit.freg_du(instr.r3.rd) + " = "
+				+ emit.freg_du(instr.r3.rj) + " & 0x7FFFFFFFFFFFFFFFULL;");
 			break;
 		case InstrId::FABS_S:
-			emit.add_code("  " + emit.freg32(instr.r3.rd) + " = "
-				"(" + emit.freg32(instr.r3.rj) + " >= 0.0f) ? " + emit.freg32(instr.r3.rj) + " : -" + emit.freg32(instr.r3.rj) + ";");
+			emit.add_code("  " + emit.freg_wu(instr.r3.rd) + " = "
+				+ emit.freg_wu(instr.r3.rj) + " & 0x7FFFFFFFU;");
 			break;
 
 		case InstrId::FNEG_D: {
@@ -1638,9 +1646,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg64(fd) + " = "
-				+ emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+				"api.fmaf64(" + emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", "
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FMADD_S: {
@@ -1650,9 +1658,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg32(fd) + " = "
-				+ emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+				"api.fmaf32(" + emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", "
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 		case InstrId::FMSUB_D: {
@@ -1662,9 +1670,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg64(fd) + " = "
-				+ emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " - "
-				+ emit.freg64(fa) + ";");
+				"api.fmaf64(" + emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", -"
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FMSUB_S: {
@@ -1674,9 +1682,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg32(fd) + " = "
-				+ emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " - "
-				+ emit.freg32(fa) + ";");
+				"api.fmaf32(" + emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", -"
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 		case InstrId::FNMADD_D: {
@@ -1686,8 +1694,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-(" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
+				"-api.fmaf64(" + emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", "
 				+ emit.freg64(fa) + ");");
 			break;
 		}
@@ -1698,8 +1706,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-(" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
+				"-api.fmaf32(" + emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", "
 				+ emit.freg32(fa) + ");");
 			break;
 		}
@@ -1710,9 +1718,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg64(fd) + " = "
-				"-" + emit.freg64(fj) + " * "
-				+ emit.freg64(fk) + " + "
-				+ emit.freg64(fa) + ";");
+				"-api.fmaf64(" + emit.freg64(fj) + ", "
+				+ emit.freg64(fk) + ", -"
+				+ emit.freg64(fa) + ");");
 			break;
 		}
 		case InstrId::FNMSUB_S: {
@@ -1722,9 +1730,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			uint32_t fk = instr.r4.rk;
 			uint32_t fa = instr.r4.ra;
 			emit.add_code("  " + emit.freg32(fd) + " = "
-				"-" + emit.freg32(fj) + " * "
-				+ emit.freg32(fk) + " + "
-				+ emit.freg32(fa) + ";");
+				"-api.fmaf32(" + emit.freg32(fj) + ", "
+				+ emit.freg32(fk) + ", -"
+				+ emit.freg32(fa) + ");");
 			break;
 		}
 
@@ -1936,8 +1944,9 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 			emit.add_code("    const lasx_reg* vj_ptr = &cpu->vr[" + std::to_string(instr.r4.rj) + "];");
 			emit.add_code("    const lasx_reg* vk_ptr = &cpu->vr[" + std::to_string(instr.r4.rk) + "];");
 			emit.add_code("    const lasx_reg* va_ptr = &cpu->vr[" + std::to_string(instr.r4.ra) + "];");
-			emit.add_code("    vd_ptr->df[0] = va_ptr->df[0] + vj_ptr->df[0] * vk_ptr->df[0];");
-			emit.add_code("    vd_ptr->df[1] = va_ptr->df[1] + vj_ptr->df[1] * vk_ptr->df[1]; }");
+			emit.add_code("    vd_ptr->df[0] = api.fmaf64(vj_ptr->df[0], vk_ptr->df[0], va_ptr->df[0]);");
+			emit.add_code("    vd_ptr->df[1] = api.fmaf64(vj_ptr->df[1], vk_ptr->df[1], va_ptr->df[1]);");
+			emit.add_code("    vd_ptr->du[2] = 0; vd_ptr->du[3] = 0; }");
 			break;
 		}
 
-- 
2.43.0


From d668ed301cc618c03b081570eb2c533f5260de6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 63/73] fix: translated memory accesses are bounds-checked, and
 translated jumps observe alignment and the instruction limit

---
 lib/libloong/tr_api.cpp  |  1 +
 lib/libloong/tr_emit.cpp | 77 ++++++++++++++++++++++++++++------------
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/lib/libloong/tr_api.cpp b/lib/libloong/tr_api.cpp
index 6931c11..b0006ed 100644
--- a/lib/libloong/tr_api.cpp
+++ b/lib/libloong/tr_api.cpp
@@ -47,6 +47,7 @@ namespace loongarch {
 #define LIKELY(x) __builtin_expect((x), 1)
 #define UNLIKELY(x) __builtin_expect((x), 0)
 #define ILLEGAL_OPCODE  0
+#define PROTECTION_FAULT 2
 #define MISALIGNED_INSTRUCTION 4
 #define VISIBLE  __attribute__((visibility("default")))
 #define INTERNAL __attribute__((visibility("hidden")))
diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 26bd94a..9397694 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -69,6 +69,8 @@ struct Emitter
 	bool fpr_used[32] = {}; // Track which FP registers are actually used
 	address_t nbit_mask = 0;
 	address_t last_fallback_pc = 0;
+	bool uses_memory_fault = false;
+	bool uses_misaligned_jump = false;
 	std::unordered_set<address_t> static_functions;
 
 	static std::string function_name_from(address_t address) {
@@ -86,7 +88,7 @@ struct Emitter
 			// The mask must under-estimate the size to avoid out-of-bounds accesses
 			size_t size = tinfo.arena_size;
 			size_t nbit = 1;
-			while (nbit < size) nbit <<= 1;
+			while (nbit <= size / 2) nbit <<= 1;
 			this->nbit_mask = nbit - 1;
 		} else if (LA_MASKED_MEMORY_BITS != 0) {
 			this->nbit_mask = (address_t(1) << LA_MASKED_MEMORY_BITS) - 1;
@@ -279,6 +281,15 @@ struct Emitter
 		}
 	}
 
+	// Leave the function with a protection fault
+	void emit_memory_fault(const std::string& addr) {
+		std::string count;
+		if (m_instr_counter > 0 && !tinfo.options.translate_ignore_instruction_limit)
+			count = " ic += " + std::to_string(m_instr_counter) + ";";
+		add_code("    { pc = " + hex_address(pc()) + "ULL; fault_addr = " + addr + ";" + count + " goto memory_fault; }");
+		this->uses_memory_fault = true;
+	}
+
 	void emit_load_bounds_check(const std::string& addr) {
 		if (tinfo.options.translate_unchecked_memory_accesses
 			|| this->nbit_mask != 0) return; // No bounds check
@@ -288,7 +299,7 @@ struct Emitter
 		add_code("  if ((" + addr + ") < " +
 			hex_address(tinfo.arena_rostart) + " || (" + addr + ") >= " +
 			hex_address(tinfo.arena_size) + ")");
-		add_code("    return api.exception(cpu, " + hex_address(pc()) + "ULL, " + addr + ", 2);");
+		this->emit_memory_fault(addr);
 	}
 	void emit_store_bounds_check(const std::string& addr) {
 		if (tinfo.options.translate_unchecked_memory_accesses
@@ -298,20 +309,20 @@ struct Emitter
 		// to allow for accesses that slightly exceed the allocated size
 		add_code("  if ((" + addr + ") < " +
 			hex_address(tinfo.arena_datastart) + " || (" + addr + ") >= " +
-			hex_address(tinfo.arena_ptr + tinfo.arena_size) + ")");
-		add_code("    return api.exception(cpu, " + hex_address(pc()) + "ULL, " + addr + ", 2);");
+			hex_address(tinfo.arena_size) + ")");
+		this->emit_memory_fault(addr);
 	}
 
 	// Emit memory load - templatized for different sizes and signedness
 	// size: 8, 16, 32, or 64 bits
 	// is_signed: whether to sign-extend (only matters for sizes < 64)
 	void emit_load(unsigned size, bool is_signed, unsigned rd, unsigned rj, int64_t offset) {
-		if (rd == 0) return;
 		std::string addr = reg(rj);
 		if (offset != 0)
 			addr.append(" + " + std::to_string(offset));
 		std::string ptr = arena_offset(addr);
 		this->emit_load_bounds_check(addr);
+		if (rd == 0) return; // The access may still fault
 
 		if (size == 64) {
 			// 64-bit load
@@ -365,10 +376,10 @@ struct Emitter
 
 	// Emit indexed memory load (register + register addressing)
 	void emit_load_indexed(unsigned size, bool is_signed, unsigned rd, unsigned rj, unsigned rk) {
-		if (rd == 0) return;
 		std::string addr = reg(rj) + " + " + reg(rk);
 		std::string ptr = arena_offset(addr);
 		this->emit_load_bounds_check(addr);
+		if (rd == 0) return; // The access may still fault
 
 		if (size == 64) {
 			add_code("  " + reg(rd) + " = *(uint64_t*)" + ptr + ";");
@@ -472,7 +483,15 @@ struct Emitter
 			// Local jump within block
 			char label[64];
 			snprintf(label, sizeof(label), "label_%lx", (unsigned long)target);
-			add_code("  goto " + std::string(label) + ";");
+			if (!tinfo.options.translate_ignore_instruction_limit) {
+				// Jumps must observe the instruction limit
+				add_code("{  if (LIKELY(ic < max_ic)) goto " + std::string(label) + ";");
+				add_code("  cpu->pc = " + hex_address(target) + "ULL;");
+				this->emit_return();
+				add_code("}");
+			} else {
+				add_code("  goto " + std::string(label) + ";");
+			}
 		} else if (false && target > pc() && this->is_global_jump_target(target)) {
 			//static int counter = 0;
 			//printf("Warning: jump %d to global target 0x%" PRIx64 "\n", ++counter, target);
@@ -554,7 +573,15 @@ struct Emitter
 			add_code(reg(rd) + " = " + hex_address(return_addr) + "ULL;");
 		}
 
-		//this->emit_return();
+		// Misaligned targets are exceptions
+		add_code("  if (UNLIKELY(pc & LA_ALIGN_MASK)) goto misaligned_jump;");
+		this->uses_misaligned_jump = true;
+		if (!tinfo.options.translate_ignore_instruction_limit) {
+			// Jumps must observe the instruction limit
+			add_code("  if (UNLIKELY(ic >= max_ic)) {");
+			store_all_registers();
+			add_code("    cpu->pc = pc; return (ReturnValues){ic, max_ic}; }");
+		}
 		add_code("  goto jump_table;"); // Jump table will handle indirect jump
 	}
 
@@ -596,7 +623,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 
 	// Jump table for local jumps within the block
 	emit.add_code("jump_table:");
-	if (!tinfo.jump_locations.empty()) {
+	{
 		emit.add_code("  switch (pc) {");
 		for (address_t jump_target : tinfo.jump_locations) {
 			if (jump_target < tinfo.basepc || jump_target >= tinfo.endpc)
@@ -731,17 +758,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 
 			emit.add_code("if (" + cond_str + ")");
 
-			// Check if target is within current block
-			if (emit.tinfo.jump_locations.count(target) != 0) {
-				char label[64];
-				snprintf(label, sizeof(label), "label_%lx", (unsigned long)target);
-				emit.add_code("  goto " + std::string(label) + ";");
-			} else {
-				// External jump (or missing label) - exit bintr
-				emit.add_code("{  cpu->pc = " + hex_address(target) + "ULL;");
-				emit.emit_return();
-				emit.add_code("}");
-			}
+			emit.jump_to(target);
 			break;
 		}
 		case InstrId::JIRL: {
@@ -928,13 +945,13 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 
 		// Pointer load/store (14-bit offset << 2, word-aligned)
 		case InstrId::LDPTR_W:
-			if (instr.ri14.rd != 0) {
+			{
 				int64_t offset = InstructionHelpers::sign_extend_14(instr.ri14.imm) << 2;
 				emit.emit_load(32, true, instr.ri14.rd, instr.ri14.rj, offset);
 			}
 			break;
 		case InstrId::LDPTR_D:
-			if (instr.ri14.rd != 0) {
+			{
 				int64_t offset = InstructionHelpers::sign_extend_14(instr.ri14.imm) << 2;
 				emit.emit_load(64, false, instr.ri14.rd, instr.ri14.rj, offset);
 			}
@@ -1958,8 +1975,22 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		emit.advance_pc();
 	}
 
+	emit.flush_instruction_counter();
 	emit.add_code("  cpu->pc = " + hex_address(tinfo.endpc) + ";");
 	emit.emit_return();
+	// Exceptions leave the function with registers and counters stored
+	if (emit.uses_memory_fault) {
+		emit.add_code("memory_fault:");
+		emit.store_all_registers();
+		emit.add_code("  INS_COUNTER(cpu) = ic;");
+		emit.add_code("  return api.exception(cpu, pc, fault_addr, PROTECTION_FAULT);");
+	}
+	if (emit.uses_misaligned_jump) {
+		emit.add_code("misaligned_jump:");
+		emit.store_all_registers();
+		emit.add_code("  INS_COUNTER(cpu) = ic;");
+		emit.add_code("  return api.exception(cpu, pc, pc, MISALIGNED_INSTRUCTION);");
+	}
 	emit.add_code("}");
 
 	// Generate static function definitions
@@ -1969,6 +2000,8 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 
 	// Generate function prologue
 	code += "\nstatic ReturnValues " + emit.func_name + "(CPU* cpu, uint64_t ic, uint64_t max_ic, addr_t pc) {\n";
+	if (emit.uses_memory_fault)
+		code += "  addr_t fault_addr;\n";
 
 	if (tinfo.options.translate_use_register_caching) {
 		// Declare cached register variables
-- 
2.43.0


From a016a9739aa189d3477d0d9f8759c97356f34b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:31 +0000
Subject: [PATCH 64/73] fix: translated system calls match the interpreter

---
 lib/libloong/tr_emit.cpp | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index 9397694..a21f705 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -465,6 +465,18 @@ struct Emitter
 			add_code("  return (ReturnValues){0, max_ic};");
 	}
 
+	// Complete a regular system call: Leave if it stopped or changed PC
+	void emit_syscall_return() {
+		if (!tinfo.options.translate_ignore_instruction_limit) {
+			add_code("    cpu->pc += 4; return (ReturnValues){ic, MAX_COUNTER(cpu)}; }");
+			add_code("  max_ic = MAX_COUNTER(cpu);");
+		} else {
+			add_code("    cpu->pc += 4; return (ReturnValues){0, MAX_COUNTER(cpu)}; }");
+		}
+		// Reload cached registers after syscall
+		reload_all_registers();
+	}
+
 	bool is_global_jump_target(address_t target) const {
 		return tinfo.global_jump_locations.find(target) != tinfo.global_jump_locations.end();
 	}
@@ -806,25 +818,31 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 		}
 
 		// System instructions
+		case InstrId::BREAK:
 		case InstrId::SYSCALL: {
 			emit.flush_instruction_counter();
-			const uint32_t code = instr.whole & 0x3FF;
-			// Store cached registers before syscall
-			if (code != 0) { // 0 = regular syscall
-				emit.store_syscall_registers();
-				emit.add_code("  if (api.syscall(cpu, " + std::to_string(code) + ", max_ic, " + hex_address(emit.pc()) + ")) {");
-			} else {
+			if (!tinfo.options.translate_ignore_instruction_limit)
+				emit.add_code("  INS_COUNTER(cpu) = ic;"); // Reveal the instruction counter
+			if (instr_id == InstrId::BREAK) {
 				emit.store_all_registers();
-				emit.add_code("  if (api.syscall(cpu, " + emit.reg(REG_A7) + ", max_ic, " + hex_address(emit.pc()) + ")) {");
+				emit.add_code("  if (api.syscall(cpu, 0, max_ic, " + hex_address(emit.pc()) + ")) {");
+				emit.emit_syscall_return();
+				break;
 			}
-			if (!tinfo.options.translate_ignore_instruction_limit) {
-				emit.add_code("    cpu->pc += 4; return (ReturnValues){ic, MAX_COUNTER(cpu)}; }");
-				emit.add_code("  max_ic = MAX_COUNTER(cpu);");
-			} else {
-				emit.add_code("    cpu->pc += 4; return (ReturnValues){0, MAX_COUNTER(cpu)}; }");
+			const uint32_t code = instr.whole & 0x3FF;
+			emit.store_all_registers();
+			if (code != 0) {
+				// System call from immediate, which returns to the caller
+				emit.add_code("  if (api.syscall(cpu, " + std::to_string(code) + ", max_ic, " + hex_address(emit.pc()) + ") >= 0)");
+				emit.add_code("    cpu->pc = cpu->r[" + std::to_string(REG_RA) + "];");
+				if (!tinfo.options.translate_ignore_instruction_limit)
+					emit.add_code("  return (ReturnValues){ic, MAX_COUNTER(cpu)};");
+				else
+					emit.add_code("  return (ReturnValues){0, MAX_COUNTER(cpu)};");
+				break;
 			}
-			// Reload cached registers after syscall
-			emit.reload_syscall_results();
+			emit.add_code("  if (api.syscall(cpu, (uint32_t)" + emit.reg(REG_A7) + ", max_ic, " + hex_address(emit.pc()) + ")) {");
+			emit.emit_syscall_return();
 			break;
 		}
 
-- 
2.43.0


From 9638709a77e5361f0fcdafc0fb4b0ea64e73ce50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 65/73] fix: the stepping interpreter executes immediate system
 calls like the others

---
 lib/libloong/la_instr_impl.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/libloong/la_instr_impl.hpp b/lib/libloong/la_instr_impl.hpp
index 7da22ee..6707b15 100644
--- a/lib/libloong/la_instr_impl.hpp
+++ b/lib/libloong/la_instr_impl.hpp
@@ -691,7 +691,13 @@ struct InstrImpl {
 	// === System Instructions ===
 
 	static void SYSCALL(cpu_t& cpu, la_instruction instr) {
-		(void)instr;
+		const uint32_t immediate = instr.whole & 0x3FF;
+		if (immediate != 0) {
+			// System call from immediate, which returns to the caller
+			cpu.machine().system_call(immediate);
+			cpu.registers().pc = cpu.reg(REG_RA) - 4; // The step adds 4
+			return;
+		}
 		const int syscall_nr = static_cast<uint32_t>(cpu.reg(REG_A7));
 		cpu.machine().system_call(syscall_nr);
 	}
-- 
2.43.0


From 8264c8b03f58340b381510b858405a52faf94dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:05 +0000
Subject: [PATCH 66/73] fix: system call handlers installed before the first
 machine are kept

---
 lib/libloong/machine.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/machine.cpp b/lib/libloong/machine.cpp
index e26cc0a..2206d7a 100644
--- a/lib/libloong/machine.cpp
+++ b/lib/libloong/machine.cpp
@@ -17,11 +17,16 @@ namespace loongarch
 		// Initialize all system call handlers to a throwing stub on first creation (thread-safe)
 		static std::once_flag init_flag;
 		std::call_once(init_flag, []() {
-			m_unknown_syscall_handler = [](Machine& m, int sysnum) {
-				throw MachineException(UNIMPLEMENTED_SYSCALL,
-					"Unimplemented system call", sysnum);
-			};
+			// Keep what has been installed before there was any machine
+			if (m_unknown_syscall_handler == nullptr) {
+				m_unknown_syscall_handler = [](Machine& m, int sysnum) {
+					throw MachineException(UNIMPLEMENTED_SYSCALL,
+						"Unimplemented system call", sysnum);
+				};
+			}
 			for (auto& handler : m_syscall_handlers) {
+				if (handler != nullptr)
+					continue;
 				handler = [](Machine& m) {
 					const int sysnum = static_cast<int>(m.cpu.reg(REG_A7));
 					m_unknown_syscall_handler(m, sysnum);
-- 
2.43.0


From 3e1b88eaad1b14092e078b53583d7ecf719166be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:40 +0000
Subject: [PATCH 67/73] fix: an exception in a system call handler leaves pc at
 the call in translated code

---
 lib/libloong/tr_emit.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/libloong/tr_emit.cpp b/lib/libloong/tr_emit.cpp
index a21f705..8007772 100644
--- a/lib/libloong/tr_emit.cpp
+++ b/lib/libloong/tr_emit.cpp
@@ -468,10 +468,10 @@ struct Emitter
 	// Complete a regular system call: Leave if it stopped or changed PC
 	void emit_syscall_return() {
 		if (!tinfo.options.translate_ignore_instruction_limit) {
-			add_code("    cpu->pc += 4; return (ReturnValues){ic, MAX_COUNTER(cpu)}; }");
+			add_code("    if (rc > 0) cpu->pc += 4; return (ReturnValues){ic, MAX_COUNTER(cpu)}; } }");
 			add_code("  max_ic = MAX_COUNTER(cpu);");
 		} else {
-			add_code("    cpu->pc += 4; return (ReturnValues){0, MAX_COUNTER(cpu)}; }");
+			add_code("    if (rc > 0) cpu->pc += 4; return (ReturnValues){0, MAX_COUNTER(cpu)}; } }");
 		}
 		// Reload cached registers after syscall
 		reload_all_registers();
@@ -825,7 +825,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 				emit.add_code("  INS_COUNTER(cpu) = ic;"); // Reveal the instruction counter
 			if (instr_id == InstrId::BREAK) {
 				emit.store_all_registers();
-				emit.add_code("  if (api.syscall(cpu, 0, max_ic, " + hex_address(emit.pc()) + ")) {");
+				emit.add_code("  { const int rc = api.syscall(cpu, 0, max_ic, " + hex_address(emit.pc()) + "); if (rc) {");
 				emit.emit_syscall_return();
 				break;
 			}
@@ -841,7 +841,7 @@ std::vector<TransMapping<>> emit(std::string& code, const TransInfo& tinfo)
 					emit.add_code("  return (ReturnValues){0, MAX_COUNTER(cpu)};");
 				break;
 			}
-			emit.add_code("  if (api.syscall(cpu, (uint32_t)" + emit.reg(REG_A7) + ", max_ic, " + hex_address(emit.pc()) + ")) {");
+			emit.add_code("  { const int rc = api.syscall(cpu, (uint32_t)" + emit.reg(REG_A7) + ", max_ic, " + hex_address(emit.pc()) + "); if (rc) {");
 			emit.emit_syscall_return();
 			break;
 		}
-- 
2.43.0


From 98297e4bc1d93c61370f3591f1f8a8b0ae7fd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:40 +0000
Subject: [PATCH 68/73] fix: results and arguments of system calls keep small
 unsigned, enumeration and 128-bit values

---
 lib/libloong/machine_inline.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/libloong/machine_inline.hpp b/lib/libloong/machine_inline.hpp
index a09c5d3..3b91cf6 100644
--- a/lib/libloong/machine_inline.hpp
+++ b/lib/libloong/machine_inline.hpp
@@ -41,11 +41,16 @@ namespace loongarch
 	inline void Machine::set_result(const T& value)
 	{
 		if constexpr (std::is_integral_v<remove_cvref_t<T>>) {
-			if constexpr (sizeof(T) < sizeof(address_t) && !std::is_same_v<T, bool>)
-				// Sign-extend all arguments smaller than the word size
-				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<std::make_signed_t<T>>(value));
+			if constexpr (sizeof(T) == 4)
+				// All 32-bit results are sign-extended
+				cpu.reg(REG_A0) = static_cast<address_t>(static_cast<int32_t>(value));
 			else
+				// Smaller results are extended according to their type
 				cpu.reg(REG_A0) = static_cast<address_t>(value);
+			if constexpr (sizeof(T) > sizeof(address_t))
+				cpu.reg(REG_A1) = static_cast<address_t>(value >> 64); // uses 2 registers
+		} else if constexpr (std::is_enum_v<remove_cvref_t<T>>) {
+			set_result(static_cast<std::underlying_type_t<T>>(value));
 		} else if constexpr (std::is_floating_point_v<remove_cvref_t<T>>) {
 			if constexpr (sizeof(T) == 4) {
 				cpu.registers().getfl32(REG_FA0) = static_cast<float>(value);
@@ -84,6 +89,8 @@ namespace loongarch
 		if constexpr (std::is_pointer_v<remove_cvref_t<T>>) {
 			return (T)memory.template memarray<std::remove_pointer_t<std::remove_reference_t<T>>>(cpu.reg(REG_A0 + idx), 1);
 		}
+		else if constexpr (std::is_integral_v<T> && sizeof(T) > sizeof(address_t))
+			return static_cast<T>(static_cast<T>(cpu.reg(REG_A0 + idx + 1)) << 64 | static_cast<T>(cpu.reg(REG_A0 + idx)));
 		else if constexpr (std::is_integral_v<T> && !std::is_enum_v<T>)
 			return static_cast<T>(cpu.reg(REG_A0 + idx));
 		else if constexpr (std::is_same_v<T, float>)
-- 
2.43.0


From 1c330eda19c6a03cfcf8f0cff1cbe12a209d487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:11 +0000
Subject: [PATCH 69/73] fix: getrandom with an endless buffer ends in
 masked-memory builds

---
 lib/libloong/linux/syscalls.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index 0f8804c..c8f79c7 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -543,8 +543,12 @@ namespace loongarch
 		// int flags = machine.cpu.reg(REG_A2);
 
 		// Fill buffer with pseudo-random data
-		for (size_t i = 0; i < buflen; i++) {
-			machine.memory.template write<uint8_t>(buf_addr + i, static_cast<uint8_t>(i * 17 + 31));
+		// The whole buffer is checked first, as masked accesses never fault
+		if (buflen != 0) {
+			auto* buf = machine.memory.template writable_memarray<uint8_t>(buf_addr, buflen);
+			for (size_t i = 0; i < buflen; i++) {
+				buf[i] = static_cast<uint8_t>(i * 17 + 31);
+			}
 		}
 
 		machine.set_result(buflen);
-- 
2.43.0


From b9ae82d7c2eefa2c5157da9ccbe717abaf2113f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:22 +0000
Subject: [PATCH 70/73] fix: tgkill of another thread runs the handler in that
 thread

The handler of a signal sent to another thread was entered by the
calling thread, on its own alternate stack, losing whatever it did.
---
 lib/libloong/linux/syscalls_threads.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index c6b3f33..68a3637 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -163,6 +163,20 @@ namespace loongarch
 							machine.set_result(0);
 						return;
 					}
+				} else if (thread != machine.threads().get_thread()) {
+					// Another thread runs its handler once it is resumed, see Signals::enter()
+					const auto& sigact = machine.sigaction(sig);
+					auto& regs = thread->stored_regs;
+					if (sigact.altstack) {
+						const auto& stack = machine.signals().per_thread(tid).stack;
+						regs.get(REG_SP) = stack.ss_sp + stack.ss_size;
+					}
+					regs.get(REG_A0) = sig;
+					regs.pc = sigact.handler - 4;
+					// A signal interrupts waiting
+					machine.threads().unblock(tid);
+					machine.set_result(0);
+					return;
 				} else {
 					// Jump to signal handler and change to altstack, if set
 					machine.signals().enter(machine, sig);
-- 
2.43.0


From 3b528ab3850c77f9aa3f2c88a1aca4c194665274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:22 +0000
Subject: [PATCH 71/73] fix: clone3 refuses set_tid instead of clearing memory
 at that ID

A requested thread ID was taken for the address of the word to clear
when the thread ends, so the exit faulted or zeroed unrelated memory.
---
 lib/libloong/linux/syscalls_threads.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 68a3637..9c6c89e 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -6,6 +6,7 @@
 namespace loongarch
 {
 	// Error numbers
+	static constexpr int64_t LA_EPERM  = 1;
 	static constexpr int64_t LA_EINVAL = 22;
 	static constexpr int64_t LA_EAGAIN = 11;
 	static constexpr int64_t LA_ENOSPC = 28;
@@ -271,6 +272,11 @@ namespace loongarch
 				machine.set_result(-LA_ENOSPC);
 				return;
 			}
+			// Choosing thread IDs is a privilege
+			if (args.set_tid_count > 0) {
+				machine.set_result(-LA_EPERM);
+				return;
+			}
 
 			const int  flags = args.flags;
 			const auto stack = args.stack + args.stack_size;
@@ -288,12 +294,6 @@ namespace loongarch
 					stack, flags, parent->tid, ctid, ptid, tls);
 			auto* thread = machine.threads().create(flags, ctid, ptid, stack, tls, 0, 0);
 
-			if (args.set_tid_count > 0) {
-				address_t set_tid = 0;
-				machine.memory.copy_from_guest(&set_tid, args.set_tid_array, sizeof(set_tid));
-				thread->clear_tid = set_tid;
-			}
-
 			// store return value for parent: child TID
 			parent->suspend(thread->tid);
 			// activate and return 0 for the child
-- 
2.43.0


From 6838c58b83ff63cfa7a3a903cf67bbcb870d5905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:01 +0000
Subject: [PATCH 72/73] fix: SIG_IGN is kept and ignored signals do nothing

The handler value 1 was rounded down to SIG_DFL, so an ignored signal
ended the thread it was sent to and read back as the default.
---
 lib/libloong/linux/syscalls.cpp         | 14 ++++++++------
 lib/libloong/linux/syscalls_threads.cpp |  2 +-
 lib/libloong/posix/signals.hpp          |  4 ++++
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/lib/libloong/linux/syscalls.cpp b/lib/libloong/linux/syscalls.cpp
index c8f79c7..c14a70c 100644
--- a/lib/libloong/linux/syscalls.cpp
+++ b/lib/libloong/linux/syscalls.cpp
@@ -393,14 +393,16 @@ namespace loongarch
 		}
 		// Return old action if requested
 		if (old_action != 0x0) {
-			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler & ~address_t(0x3);
+			sa.sa_handler = sigact.is_unset() ? 0x0 : sigact.handler;
 			sa.sa_flags   = (sigact.altstack ? LINUX_SA_ONSTACK : 0x0);
 			sa.sa_mask    = sigact.mask;
 			machine.memory.copy_to_guest(old_action, &sa, sizeof(sa));
 		}
 		// Set new action if provided
 		if (action != 0x0) {
-			sigact.handler  = new_sa.sa_handler & ~address_t(0x3);
+			sigact.handler  = new_sa.sa_handler;
+			if (!sigact.is_ignored())
+				sigact.handler &= ~address_t(0x3);
 			sigact.altstack = (new_sa.sa_flags & LINUX_SA_ONSTACK) != 0;
 			sigact.mask     = new_sa.sa_mask;
 		}
@@ -424,8 +426,8 @@ namespace loongarch
 
 		sysprint(machine, "tkill(tid=%d, sig=%d)\n", tid, sig);
 
-		// If the signal is zero or unset, ignore it
-		if (sig == 0 || machine.sigaction(sig).is_unset()) {
+		// If the signal is zero, unset or ignored, ignore it
+		if (sig == 0 || machine.sigaction(sig).is_unset() || machine.sigaction(sig).is_ignored()) {
 			machine.set_result(0);
 			return;
 		}
@@ -453,8 +455,8 @@ namespace loongarch
 
 		sysprint(machine, "tgkill(tgid=%d, tid=%d, sig=%d)\n", tgid, tid, sig);
 
-		// If the signal is zero or unset, ignore it
-		if (sig == 0 || machine.sigaction(sig).is_unset()) {
+		// If the signal is zero, unset or ignored, ignore it
+		if (sig == 0 || machine.sigaction(sig).is_unset() || machine.sigaction(sig).is_ignored()) {
 			machine.set_result(0);
 			return;
 		}
diff --git a/lib/libloong/linux/syscalls_threads.cpp b/lib/libloong/linux/syscalls_threads.cpp
index 9c6c89e..73d96de 100644
--- a/lib/libloong/linux/syscalls_threads.cpp
+++ b/lib/libloong/linux/syscalls_threads.cpp
@@ -149,7 +149,7 @@ namespace loongarch
 			auto* thread = machine.threads().get_thread(tid);
 			if (thread != nullptr) {
 				// If the signal is unhandled, exit the thread
-				if (sig == 0) {
+				if (sig == 0 || machine.sigaction(sig).is_ignored()) {
 					// Only check that the thread exists
 					machine.set_result(0);
 					return;
diff --git a/lib/libloong/posix/signals.hpp b/lib/libloong/posix/signals.hpp
index c8f1bd6..e0c847a 100644
--- a/lib/libloong/posix/signals.hpp
+++ b/lib/libloong/posix/signals.hpp
@@ -21,10 +21,14 @@ namespace loongarch
 	struct SignalAction
 	{
 		static constexpr address_t SIG_UNSET = ~address_t(0x0);
+		static constexpr address_t SIG_IGNORED = 0x1; // SIG_IGN
 
 		bool is_unset() const noexcept {
 			return handler == 0x0 || handler == SIG_UNSET;
 		}
+		bool is_ignored() const noexcept {
+			return handler == SIG_IGNORED;
+		}
 
 		address_t handler = SIG_UNSET;  // Handler address
 		bool altstack = false;          // Use alternate stack?
-- 
2.43.0


From d7f9cfb9364f60a86b8432d64dfeacbd86498112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:03 +0000
Subject: [PATCH 73/73] fix: raise an exception when a system call continues at
 a misaligned address

---
 lib/libloong/cpu.cpp                          |  3 +++
 lib/libloong/tailcall_dispatch.cpp            |  9 +++++++++
 lib/libloong/tailcall_inaccurate_dispatch.cpp |  9 +++++++++
 lib/libloong/threaded_dispatch.cpp            | 14 +++++++++++---
 lib/libloong/threaded_inaccurate_dispatch.cpp | 14 +++++++++++---
 5 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/lib/libloong/cpu.cpp b/lib/libloong/cpu.cpp
index c95c627..81f2a3b 100644
--- a/lib/libloong/cpu.cpp
+++ b/lib/libloong/cpu.cpp
@@ -149,6 +149,9 @@ namespace loongarch
 
 	void CPU::step_one(bool use_instruction_counter)
 	{
+		if (LA_UNLIKELY((pc() & 0x3) != 0)) {
+			trigger_exception(MISALIGNED_INSTRUCTION, pc());
+		}
 		auto instr = read_current_instruction();
 		execute(instr);
 		increment_pc(4);
diff --git a/lib/libloong/tailcall_dispatch.cpp b/lib/libloong/tailcall_dispatch.cpp
index 5429955..a9bec31 100644
--- a/lib/libloong/tailcall_dispatch.cpp
+++ b/lib/libloong/tailcall_dispatch.cpp
@@ -92,6 +92,13 @@ namespace loongarch {
 	if (LA_UNLIKELY(counter.overflowed())) \
 		return RETURN_VALUES();
 
+// System calls can continue at any address
+#define ALIGNMENT_CHECK() \
+	if (LA_UNLIKELY((pc & 0x3) != 0 && counter.max() != 0)) { \
+		REGISTERS().pc = pc; \
+		CPU().trigger_exception(MISALIGNED_INSTRUCTION, pc); \
+	}
+
 #define PERFORM_BRANCH(offset) \
 	pc += (offset); \
 	d += (offset) >> DecoderCache::SHIFT; \
@@ -144,6 +151,7 @@ namespace loongarch
 		if (LA_UNLIKELY(pc != cpu.registers().pc))
 		{
 			pc = cpu.registers().pc + 4;
+			ALIGNMENT_CHECK();
 			OVERFLOW_CHECKED_JUMP();
 		}
 		NEXT_BLOCK(4);
@@ -161,6 +169,7 @@ namespace loongarch
 		counter.retrieve_counters(MACHINE());
 		// Return immediately using REG_RA
 		pc = REG(REG_RA);
+		ALIGNMENT_CHECK();
 		OVERFLOW_CHECKED_JUMP();
 	}
 
diff --git a/lib/libloong/tailcall_inaccurate_dispatch.cpp b/lib/libloong/tailcall_inaccurate_dispatch.cpp
index ab971b7..5680282 100644
--- a/lib/libloong/tailcall_inaccurate_dispatch.cpp
+++ b/lib/libloong/tailcall_inaccurate_dispatch.cpp
@@ -84,6 +84,13 @@ namespace loongarch {
 	BEGIN_BLOCK() \
 	EXECUTE_CURRENT()
 
+// System calls can continue at any address
+#define ALIGNMENT_CHECK() \
+	if (LA_UNLIKELY((pc & 0x3) != 0 && MACHINE().max_instructions() != 0)) { \
+		REGISTERS().pc = pc; \
+		CPU().trigger_exception(MISALIGNED_INSTRUCTION, pc); \
+	}
+
 #define PERFORM_BRANCH(offset) \
 	pc += (offset); \
 	d += (offset) >> DecoderCache::SHIFT; \
@@ -130,6 +137,7 @@ namespace loongarch
 		if (LA_UNLIKELY(pc != cpu.registers().pc))
 		{
 			pc = cpu.registers().pc + 4;
+			ALIGNMENT_CHECK();
 			UNCHECKED_JUMP();
 		}
 		NEXT_BLOCK_UNCHECKED(4);
@@ -146,6 +154,7 @@ namespace loongarch
 		pc = REG(REG_RA);
 		if (LA_UNLIKELY(MACHINE().max_instructions() == 0))
 			return RETURN_VALUES();
+		ALIGNMENT_CHECK();
 		UNCHECKED_JUMP();
 	}
 
diff --git a/lib/libloong/threaded_dispatch.cpp b/lib/libloong/threaded_dispatch.cpp
index 390bab3..572af17 100644
--- a/lib/libloong/threaded_dispatch.cpp
+++ b/lib/libloong/threaded_dispatch.cpp
@@ -89,7 +89,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
 	{
 		pc = REGISTERS().pc + 4;
-		goto check_jump;
+		goto check_system_jump;
 	}
 	// Syscall completed normally
 	NEXT_BLOCK_UNCHECKED(4);
@@ -107,7 +107,7 @@ INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 
 	// Return immediately using REG_RA
 	pc = REG(REG_RA);
-	goto check_jump;
+	goto check_system_jump;
 }
 
 #ifdef LA_BINARY_TRANSLATION
@@ -132,7 +132,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 	pc = REGISTERS().pc;
 
 	// The translated block updated PC, so we need to check for new execute segment
-	goto check_jump;
+	goto check_system_jump;
 }
 #endif
 
@@ -183,6 +183,14 @@ stop_execution:
 		}
 		return max_counter == 0;
 
+check_system_jump:
+		// System calls can continue at any address
+		if (LA_UNLIKELY((pc & 0x3) != 0 && max_counter != 0)) {
+			m_regs.pc = pc;
+			trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		}
+		// Fall through
+
 check_jump:
 		if constexpr (TRACE_DISPATCH) {
 			fprintf(stderr, "[check_jump] PC=0x%lx counter=%lu max=%lu\n",
diff --git a/lib/libloong/threaded_inaccurate_dispatch.cpp b/lib/libloong/threaded_inaccurate_dispatch.cpp
index 1e77671..39fc6ed 100644
--- a/lib/libloong/threaded_inaccurate_dispatch.cpp
+++ b/lib/libloong/threaded_inaccurate_dispatch.cpp
@@ -85,7 +85,7 @@ INSTRUCTION(LA64_BC_SYSCALL, la64_syscall)
 	if (LA_UNLIKELY(max_counter == 0 || pc != REGISTERS().pc))
 	{
 		pc = REGISTERS().pc + 4;
-		goto check_jump;
+		goto check_system_jump;
 	}
 	// Syscall completed normally
 	NEXT_BLOCK_UNCHECKED(4);
@@ -102,7 +102,7 @@ INSTRUCTION(LA64_BC_SYSCALLIMM, la64_syscall_imm)
 
 	// Return immediately using REG_RA
 	pc = REG(REG_RA);
-	goto check_jump;
+	goto check_system_jump;
 }
 
 #ifdef LA_BINARY_TRANSLATION
@@ -115,7 +115,7 @@ INSTRUCTION(LA64_BC_TRANSLATOR, execute_translated_block)
 	const bintr_block_returns result = handler(CPU(), 0, ~0ull, RECONSTRUCT_PC());
 	pc = REGISTERS().pc;
 	max_counter = result.max_ic;
-	goto check_jump;
+	goto check_system_jump;
 }
 #endif
 
@@ -178,6 +178,14 @@ stop_execution:
 		}
 		return;
 
+check_system_jump:
+		// System calls can continue at any address
+		if (LA_UNLIKELY((pc & 0x3) != 0 && max_counter != 0)) {
+			m_regs.pc = pc;
+			trigger_exception(MISALIGNED_INSTRUCTION, pc);
+		}
+		// Fall through
+
 check_jump:
 		if (max_counter == 0)
 			goto stop_execution;
-- 
2.43.0

