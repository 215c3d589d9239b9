From 724c6b160c84cbe3dbd943fa4d23b789aa0518c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:35 +0000
Subject: [PATCH 01/23] fix: check the full RISC-V HI20/LO12 pair range when
 applying relocations

The upper half of a HI20/LO12 pair is rounded by 0x800 before it is stored.
Displacements in [0x7ffff800, 0x7fffffff] passed the signed 32-bit check but
produced an address that is off by 2^32.  Refuse them, and accept the
representable values just below -2^31.
---
 src/ld/ld_elf_reloc.c | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/ld/ld_elf_reloc.c b/src/ld/ld_elf_reloc.c
index 5bd089c..9a8f856 100644
--- a/src/ld/ld_elf_reloc.c
+++ b/src/ld/ld_elf_reloc.c
@@ -2749,6 +2749,22 @@ static int ld_elf_reloc_riscv_require_u32(
             description, instruction);
 }
 
+/*
+ * The low 12 bits of a HI20/LO12 pair are sign-extended, so the upper part is
+ * rounded by 0x800 before it is placed in the sign-extended 20-bit field.
+ */
+static bool ld_elf_reloc_riscv_pair_fits(int64_t value) {
+    return value >= -INT64_C(0x80000800) && value < INT64_C(0x7ffff800);
+}
+
+static bool ld_elf_reloc_riscv_pair_expression(uint64_t base, int64_t addend,
+                                               uint64_t subtrahend,
+                                               int64_t *result) {
+    return ld_elf_reloc_expression_signed(base, addend, subtrahend, 64U,
+                                          result) &&
+           ld_elf_reloc_riscv_pair_fits(*result);
+}
+
 static void ld_elf_reloc_riscv_write_u_type(uint8_t *place,
                                             int64_t value) {
     uint32_t instruction = ld_elf_reloc_read_u32(place);
@@ -3022,9 +3038,9 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_GOT_HI20:
         case LD_R_RISCV_TLS_GOT_HI20:
         case LD_R_RISCV_TLS_GD_HI20:
-            if (!ld_elf_reloc_expression_signed(
+            if (!ld_elf_reloc_riscv_pair_expression(
                         values->got_entry_address, relocation->addend,
-                        values->place_address, 32U, &delta)) {
+                        values->place_address, &delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3077,9 +3093,9 @@ static int ld_elf_reloc_apply_riscv64(
                     values->paired_hi.type == LD_R_RISCV_PCREL_HI20
                             ? values->paired_hi.symbol_address
                             : values->paired_hi.got_entry_address;
-            if (!ld_elf_reloc_expression_signed(
+            if (!ld_elf_reloc_riscv_pair_expression(
                         pair_target, values->paired_hi.addend,
-                        values->paired_hi.place_address, 32U, &delta)) {
+                        values->paired_hi.place_address, &delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3118,8 +3134,8 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_HI20:
         case LD_R_RISCV_LO12_I:
         case LD_R_RISCV_LO12_S:
-            if (!ld_elf_reloc_expression_signed(
-                        values->symbol_address, relocation->addend, 0U, 32U,
+            if (!ld_elf_reloc_riscv_pair_expression(
+                        values->symbol_address, relocation->addend, 0U,
                         &delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
@@ -3161,9 +3177,9 @@ static int ld_elf_reloc_apply_riscv64(
         case LD_R_RISCV_TPREL_HI20:
         case LD_R_RISCV_TPREL_LO12_I:
         case LD_R_RISCV_TPREL_LO12_S:
-            if (!ld_elf_reloc_expression_signed(
+            if (!ld_elf_reloc_riscv_pair_expression(
                         values->symbol_address, relocation->addend,
-                        values->thread_pointer_address, 32U, &delta)) {
+                        values->thread_pointer_address, &delta)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
@@ -3401,7 +3417,7 @@ static int ld_elf_reloc_apply_riscv64(
                     "0x%08x",
                     low);
         }
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_pair_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
@@ -3419,7 +3435,7 @@ static int ld_elf_reloc_apply_riscv64(
         return LD_OK;
     }
     if (relocation->type == LD_R_RISCV_PCREL_HI20) {
-        if (!ld_elf_reloc_signed_fits(delta, 32U)) {
+        if (!ld_elf_reloc_riscv_pair_fits(delta)) {
             return ld_elf_reloc_fail(
                     ctx, object, section, relocation, arch,
                     values->symbol_name,
-- 
2.43.0


From 1341ef37086fba2ab0e4e527114f9412550f1f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:35 +0000
Subject: [PATCH 02/23] fix: refuse negative AArch64 local-exec TLS offsets

ADD (immediate) and MOVZ/MOVK take unsigned immediates.  Negative offsets
were accepted and produced a different address, and TPREL_HI12 offsets in
[2^23, 2^24) were refused although they are representable.
---
 src/ld/ld_elf_reloc.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/ld/ld_elf_reloc.c b/src/ld/ld_elf_reloc.c
index 9a8f856..79c0bca 100644
--- a/src/ld/ld_elf_reloc.c
+++ b/src/ld/ld_elf_reloc.c
@@ -2197,13 +2197,13 @@ static int ld_elf_reloc_apply_aarch64(
                         "the signed 64-bit range");
             }
             int64_t high = ld_elf_reloc_floor_shift_16(delta);
-            if (!ld_elf_reloc_signed_fits(high, 16U)) {
+            if (high < 0 || !ld_elf_reloc_signed_fits(high, 16U)) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
-                        "TLSDESC local-exec high-16 value does not fit a "
-                        "signed 16-bit value; S + A - TP must fit a signed "
-                        "32-bit value");
+                        "TLSDESC local-exec high-16 value is negative or does "
+                        "not fit a signed 16-bit value; S + A - TP must be a "
+                        "non-negative signed 32-bit value");
             }
             uint32_t instruction =
                     0xd2a00000U | ((uint32_t) (uint16_t) high << 5U);
@@ -2218,12 +2218,13 @@ static int ld_elf_reloc_apply_aarch64(
             }
             if (!ld_elf_reloc_expression_signed(
                         values->symbol_address, relocation->addend,
-                        values->thread_pointer_address, 32U, &delta)) {
+                        values->thread_pointer_address, 32U, &delta) ||
+                delta < 0) {
                 return ld_elf_reloc_fail(
                         ctx, object, section, relocation, arch,
                         values->symbol_name,
                         "TLSDESC local-exec offset S + A - TP does not fit "
-                        "a signed 32-bit value");
+                        "a non-negative signed 32-bit value");
             }
             uint32_t instruction =
                     0xf2800000U | ((uint32_t) (uint16_t) delta << 5U);
@@ -2243,11 +2244,11 @@ static int ld_elf_reloc_apply_aarch64(
             }
             if (relocation->type == LD_R_AARCH64_TLSLE_ADD_TPREL_HI12) {
                 int64_t high = ld_elf_reloc_floor_shift_12(delta);
-                if (!ld_elf_reloc_signed_fits(high, 12U)) {
+                if (high < 0 || high > 0xfff) {
                     return ld_elf_reloc_fail(
                             ctx, object, section, relocation, arch,
                             values->symbol_name,
-                            "TLS high-12 value does not fit signed 12 bits");
+                            "TLS high-12 value does not fit unsigned 12 bits");
                 }
                 ld_elf_reloc_write_imm12(
                         place, (uint16_t) ((uint64_t) high & 0xfffU));
-- 
2.43.0


From f4470c89c16bf865dd6cb4ed5d22fca3dbc69d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:55 +0000
Subject: [PATCH 03/23] fix: use the c.sw immediate layout when compressing
 RISC-V word stores

---
 src/binary/encoding/riscv64/opcode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/encoding/riscv64/opcode.h b/src/binary/encoding/riscv64/opcode.h
index c23fea7..310df98 100644
--- a/src/binary/encoding/riscv64/opcode.h
+++ b/src/binary/encoding/riscv64/opcode.h
@@ -173,7 +173,7 @@ static inline void make_code32(riscv64_asm_inst_t *inst, uint32_t *buf, int len)
 #define C_SRAI(rd, imm) MAKE_CODE16(inst, 0x8401 | (EXTRACT_IMM(imm, 5, 5) << 12) | (to_rvc_reg(rd) << 7) | (EXTRACT_IMM(imm, 4, 0) << 2))
 #define C_LW(rd, imm, rs) MAKE_CODE16(inst, 0x4000 | (EXTRACT_IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (EXTRACT_IMM(imm, 2, 2) << 6) | (EXTRACT_IMM(imm, 6, 6) << 5) | (to_rvc_reg(rd) << 2))
 #define C_LD(rd, imm, rs) MAKE_CODE16(inst, 0x6000 | (EXTRACT_IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs) << 7) | (EXTRACT_IMM(imm, 7, 6) << 5) | (to_rvc_reg(rd) << 2))
-#define C_SW(rs2, imm, rs1) MAKE_CODE16(inst, 0xc000 | (EXTRACT_IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (EXTRACT_IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
+#define C_SW(rs2, imm, rs1) MAKE_CODE16(inst, 0xc000 | (EXTRACT_IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (EXTRACT_IMM(imm, 2, 2) << 6) | (EXTRACT_IMM(imm, 6, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_SD(rs2, imm, rs1) MAKE_CODE16(inst, 0xe000 | (EXTRACT_IMM(imm, 5, 3) << 10) | (to_rvc_reg(rs1) << 7) | (EXTRACT_IMM(imm, 7, 6) << 5) | (to_rvc_reg(rs2) << 2))
 #define C_LDSP(rd, imm) MAKE_CODE16(inst, 0x6002 | (EXTRACT_IMM(imm, 5, 5) << 12) | ((rd) << 7) | (EXTRACT_IMM(imm, 4, 3) << 5) | (EXTRACT_IMM(imm, 8, 6) << 2))
 #define C_SDSP(rs, imm) MAKE_CODE16(inst, 0xe002 | (EXTRACT_IMM(imm, 5, 3) << 10) | (EXTRACT_IMM(imm, 8, 6) << 7) | ((rs) << 2))
-- 
2.43.0


From b97593ab0a8a36437de1e30bb67a505675b3fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:55 +0000
Subject: [PATCH 04/23] fix: avoid reserved RISC-V compressed forms for x0 and
 sp destinations

---
 src/binary/encoding/riscv64/opcode.c | 18 +++++++++++-------
 src/binary/encoding/riscv64/opcode.h |  2 +-
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/binary/encoding/riscv64/opcode.c b/src/binary/encoding/riscv64/opcode.c
index cd16eea..7c7dc1f 100644
--- a/src/binary/encoding/riscv64/opcode.c
+++ b/src/binary/encoding/riscv64/opcode.c
@@ -251,9 +251,10 @@ static unsigned char *asm_3r(riscv64_asm_inst_t *inst) {
 
     switch (inst->opcode) {
         case O_ADD:
-            if (rd == rs1)
+            // c.add 的 rd 和 rs2 均不能为 x0
+            if (rd == rs1 && rd != OPCODE_ZERO && rs2 != OPCODE_ZERO)
                 C_ADD(rd, rs2);
-            else if (rd == rs2)
+            else if (rd == rs2 && rd != OPCODE_ZERO && rs1 != OPCODE_ZERO)
                 C_ADD(rd, rs1);
             else
                 W_ADD(rd, rs1, rs2);
@@ -361,8 +362,11 @@ static unsigned char *asm_2ri(riscv64_asm_inst_t *inst) {
                     }
                     break;
                 case O_ADDIW:
-                    C_ADDIW(rd, imm);
-                    return inst->opcode_data;
+                    if (rd != OPCODE_ZERO) {
+                        C_ADDIW(rd, imm);
+                        return inst->opcode_data;
+                    }
+                    break;
                 case O_ANDI:
                     if (is_rvc_reg(rd)) {
                         C_ANDI(rd, imm);
@@ -557,11 +561,11 @@ static void li_sub(riscv64_asm_inst_t *inst, int64_t imm) {
             l = l - 0x1000;
             imm += 1 << 12;
         }
-        if (is_im6(imm >> 12))
+        if (is_im6(imm >> 12) && rd != R_SP->index)
             C_LUI(rd, imm);
         else
             W_LUI(rd, imm);
-        if (is_im6(l))
+        if (is_im6(l) && rd != OPCODE_ZERO)
             C_ADDIW(rd, l);
         else
             W_ADDIW(rd, rd, l);
@@ -627,7 +631,7 @@ static unsigned char *asm_ld(riscv64_asm_inst_t *inst) {
             W_LW(rd, ofs, rs);
             return inst->opcode_data;
         case O_LD:
-            if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == R_SP->index) {
+            if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == R_SP->index && rd != OPCODE_ZERO) {
                 C_LDSP(rd, ofs);
                 return inst->opcode_data;
             }
diff --git a/src/binary/encoding/riscv64/opcode.h b/src/binary/encoding/riscv64/opcode.h
index 310df98..ae920ee 100644
--- a/src/binary/encoding/riscv64/opcode.h
+++ b/src/binary/encoding/riscv64/opcode.h
@@ -223,7 +223,7 @@ static inline void make_code32(riscv64_asm_inst_t *inst, uint32_t *buf, int len)
     } while (0)
 #define P_SEXT_W(rd, rs)                  \
     do {                                  \
-        if ((rd) == (rs)) C_ADDIW(rd, 0); \
+        if ((rd) == (rs) && (rd) != OPCODE_ZERO) C_ADDIW(rd, 0); \
         else                              \
             W_ADDIW(rd, rs, 0);           \
     } while (0)
-- 
2.43.0


From 3f856d57d4aedc56bade77334ca8dad974296f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:13 +0000
Subject: [PATCH 05/23] fix: refuse RISC-V offsets and shift amounts that do
 not fit the instruction

---
 src/binary/encoding/riscv64/opcode.c | 29 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/binary/encoding/riscv64/opcode.c b/src/binary/encoding/riscv64/opcode.c
index 7c7dc1f..7e2343b 100644
--- a/src/binary/encoding/riscv64/opcode.c
+++ b/src/binary/encoding/riscv64/opcode.c
@@ -451,7 +451,7 @@ static unsigned char *asm_2ri(riscv64_asm_inst_t *inst) {
         case O_SRLIW:
         case O_SRAI:
         case O_SRAIW:
-            if (imm >= 64 || (inst->opcode == O_SLLIW && imm >= 32) || imm < 0)
+            if (imm >= 64 || ((inst->opcode == O_SLLIW || inst->opcode == O_SRLIW || inst->opcode == O_SRAIW) && imm >= 32) || imm < 0)
                 return NULL;
             switch (inst->opcode) {
                 case O_SLLI:
@@ -613,13 +613,13 @@ static unsigned char *asm_ld(riscv64_asm_inst_t *inst) {
     int rd = inst->operands[0]->reg.index;
     int64_t ofs = inst->operands[1]->indirect.offset;
     int rs = inst->operands[1]->indirect.reg->index;
+    if (!is_im12(ofs))
+        return NULL;
     switch (inst->opcode) {
         case O_LB:
-            // TODO: Check offset range.
             W_LB(rd, ofs, rs);
             return inst->opcode_data;
         case O_LH:
-            // TODO: Check offset range.
             W_LH(rd, ofs, rs);
             return inst->opcode_data;
         case O_LW:
@@ -627,7 +627,6 @@ static unsigned char *asm_ld(riscv64_asm_inst_t *inst) {
                 C_LW(rd, ofs, rs);
                 return inst->opcode_data;
             }
-            // TODO: Check offset range.
             W_LW(rd, ofs, rs);
             return inst->opcode_data;
         case O_LD:
@@ -639,19 +638,15 @@ static unsigned char *asm_ld(riscv64_asm_inst_t *inst) {
                 C_LD(rd, ofs, rs);
                 return inst->opcode_data;
             }
-            // TODO: Check offset range.
             W_LD(rd, ofs, rs);
             return inst->opcode_data;
         case O_LBU:
-            // TODO: Check offset range.
             W_LBU(rd, ofs, rs);
             return inst->opcode_data;
         case O_LHU:
-            // TODO: Check offset range.
             W_LHU(rd, ofs, rs);
             return inst->opcode_data;
         case O_LWU:
-            // TODO: Check offset range.
             W_LWU(rd, ofs, rs);
             return inst->opcode_data;
         default:
@@ -660,16 +655,16 @@ static unsigned char *asm_ld(riscv64_asm_inst_t *inst) {
 }
 
 static unsigned char *asm_sd(riscv64_asm_inst_t *inst) {
-    int ofs = inst->operands[1]->indirect.offset;
+    int64_t ofs = inst->operands[1]->indirect.offset;
     int rs2 = inst->operands[0]->reg.index;
     int rs1 = inst->operands[1]->indirect.reg->index;
+    if (!is_im12(ofs))
+        return NULL;
     switch (inst->opcode) {
         case O_SB:
-            // TODO: Check offset range.
             W_SB(rs2, ofs, rs1);
             return inst->opcode_data;
         case O_SH:
-            // TODO: Check offset range.
             W_SH(rs2, ofs, rs1);
             return inst->opcode_data;
         case O_SW:
@@ -677,7 +672,6 @@ static unsigned char *asm_sd(riscv64_asm_inst_t *inst) {
                 C_SW(rs2, ofs, rs1);
                 return inst->opcode_data;
             }
-            // TODO: Check offset range.
             W_SW(rs2, ofs, rs1);
             return inst->opcode_data;
         case O_SD:
@@ -689,7 +683,6 @@ static unsigned char *asm_sd(riscv64_asm_inst_t *inst) {
                 C_SD(rs2, ofs, rs1);
                 return inst->opcode_data;
             }
-            // TODO: Check offset range.
             W_SD(rs2, ofs, rs1);
             return inst->opcode_data;
         default:
@@ -712,6 +705,8 @@ static unsigned char *asm_j(riscv64_asm_inst_t *inst) {
     //        C_J(imm);
     //    } else if (imm >= -1048576 && imm < 1048576) {
     // 使用标准跳转指令 (32位)
+    if (imm < -1048576 || imm >= 1048576 || (imm & 1))
+        return NULL;
     W_JAL(0, imm); // x0 作为目标寄存器，实现无条件跳转
     //    } else {
     //        assertf(false, "invalid jump offset: %ld", imm);
@@ -769,6 +764,8 @@ unsigned char *asm_bxx(riscv64_asm_inst_t *inst) {
 
     static const int k_funct3_table[] = {_BEQ, _BNE, _BLT, _BGE, _BLTU, _BGEU};
     int funct3 = k_funct3_table[inst->opcode - O_BEQ];
+    if (offset < -4096 || offset >= 4096 || (offset & 1))
+        return NULL;
     W_BXX(funct3, rs1, rs2, offset);
     return inst->opcode_data;
 }
@@ -934,6 +931,8 @@ static unsigned char *asm_fld(riscv64_asm_inst_t *inst) {
     int rd = inst->operands[0]->reg.index;
     int64_t ofs = inst->operands[1]->indirect.offset;
     int rs = inst->operands[1]->indirect.reg->index;
+    if (!is_im12(ofs))
+        return NULL;
     if (inst->opcode == O_FLD) {
         if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs == R_SP->index) {
             C_FLDSP(rd, ofs);
@@ -944,7 +943,6 @@ static unsigned char *asm_fld(riscv64_asm_inst_t *inst) {
             return inst->opcode_data;
         }
     }
-    // TODO: Check offset range.
     switch (inst->opcode) {
         case O_FLD:
             W_FLD(rd, ofs, rs);
@@ -963,6 +961,8 @@ static unsigned char *asm_fsd(riscv64_asm_inst_t *inst) {
     int64_t ofs = inst->operands[1]->indirect.offset;
     int rs2 = inst->operands[0]->reg.index;
     int rs1 = inst->operands[1]->indirect.reg->index;
+    if (!is_im12(ofs))
+        return NULL;
     if (inst->opcode == O_FSD) {
         if (ofs >= 0 && ofs < (1 << 9) && (ofs & 7) == 0 && rs1 == R_SP->index) {
             C_FSDSP(rs2, ofs);
@@ -973,7 +973,6 @@ static unsigned char *asm_fsd(riscv64_asm_inst_t *inst) {
             return inst->opcode_data;
         }
     }
-    // TODO: Check offset range.
     switch (inst->opcode) {
         case O_FSD:
             W_FSD(rs2, ofs, rs1);
-- 
2.43.0


From 1c1c37e2b7c5068ef381cdd91a33e8302690c2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:15 +0000
Subject: [PATCH 06/23] fix: keep the access size of AArch64 byte and halfword
 loads into X registers

---
 src/binary/encoding/arm64/opcode.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/binary/encoding/arm64/opcode.c b/src/binary/encoding/arm64/opcode.c
index d2eb3b4..cd81dcd 100644
--- a/src/binary/encoding/arm64/opcode.c
+++ b/src/binary/encoding/arm64/opcode.c
@@ -267,7 +267,9 @@ static uint32_t asm_ldrstr(arm64_asm_inst_t *inst) {
                 b -= 3;
                 s = 1;
             }
-            b |= sz;
+            if (inst->opcode == LDR) {
+                b |= sz;
+            }
 
             return W_LDR_UIMM(b, s, opr1->reg.index, 0, base);
             // 其他指令类型如果需要支持符号重定位，可以在这里添加
@@ -290,7 +292,12 @@ static uint32_t asm_ldrstr(arm64_asm_inst_t *inst) {
                     b -= 3;
                     s = 1;
                 }
-                b |= sz;
+                uint32_t opc = 0; // LDRSB/LDRSH: opc 11 extends to 32 bits, 10 extends to 64 bits
+                if (inst->opcode == LDR) {
+                    b |= sz;
+                } else if (s) {
+                    opc = sz << 22;
+                }
                 if (opr2->indirect.prepost == 0) {
                     if (offset >= 0) {
                         if (inst->opcode == LDR) {
@@ -299,12 +306,12 @@ static uint32_t asm_ldrstr(arm64_asm_inst_t *inst) {
                             offset = offset >> 1;
                         }
 
-                        return W_LDR_UIMM(b, s, opr1->reg.index, offset, base);
+                        return W_LDR_UIMM(b, s, opr1->reg.index, offset, base) ^ opc;
                     } else {
-                        return W_LDUR(b, s, opr1->reg.index, offset, base);
+                        return W_LDUR(b, s, opr1->reg.index, offset, base) ^ opc;
                     }
                 } else {
-                    return W_LDR(b, s, opr1->reg.index, offset, base, prepost);
+                    return W_LDR(b, s, opr1->reg.index, offset, base, prepost) ^ opc;
                 }
             } break;
             case STRB:
-- 
2.43.0


From 85a86fe2443308c19217fbb70de828f91a9874c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:16 +0000
Subject: [PATCH 07/23] fix: encode unaligned AArch64 load and store offsets
 without truncating them

---
 src/binary/encoding/arm64/opcode.c | 43 +++++++++++++++++-------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/binary/encoding/arm64/opcode.c b/src/binary/encoding/arm64/opcode.c
index cd81dcd..c0db24d 100644
--- a/src/binary/encoding/arm64/opcode.c
+++ b/src/binary/encoding/arm64/opcode.c
@@ -10,6 +10,15 @@ static bool is_sp(reg_t *reg) {
     return str_equal(reg->name, "sp") && reg->index == sp->index;
 }
 
+static bool fits_imm9(int64_t offset) {
+    return offset >= -256 && offset <= 255;
+}
+
+// [base, #offset] uses the scaled unsigned form when the offset is a multiple of the access size
+static bool fits_uimm12(int64_t offset, uint32_t shift) {
+    return offset >= 0 && (offset & ((1 << shift) - 1)) == 0 && (offset >> shift) <= 4095;
+}
+
 static uint32_t asm_noop(arm64_asm_inst_t *inst) {
     return 0;
 }
@@ -281,6 +290,14 @@ static uint32_t asm_ldrstr(arm64_asm_inst_t *inst) {
         assert(offset <= 4095 && offset >= -4096);
         uint32_t base = opr2->indirect.reg->index;
         uint32_t prepost = pre_post_map[opr2->indirect.prepost];
+        uint32_t shift = 0;
+        if (inst->opcode == LDR || inst->opcode == STR) {
+            shift = 2 + sz;
+        } else if (inst->opcode == LDRH || inst->opcode == LDRSH || inst->opcode == STRH) {
+            shift = 1;
+        }
+        bool scaled = opr2->indirect.prepost == 0 && fits_uimm12(offset, shift);
+        assert(scaled || fits_imm9(offset));
         switch (inst->opcode) {
             case LDRB:
             case LDRH:
@@ -299,14 +316,8 @@ static uint32_t asm_ldrstr(arm64_asm_inst_t *inst) {
                     opc = sz << 22;
                 }
                 if (opr2->indirect.prepost == 0) {
-                    if (offset >= 0) {
-                        if (inst->opcode == LDR) {
-                            offset = offset >> (2 + sz);
-                        } else if (inst->opcode == LDRH || inst->opcode == LDRSH) {
-                            offset = offset >> 1;
-                        }
-
-                        return W_LDR_UIMM(b, s, opr1->reg.index, offset, base) ^ opc;
+                    if (scaled) {
+                        return W_LDR_UIMM(b, s, opr1->reg.index, offset >> shift, base) ^ opc;
                     } else {
                         return W_LDUR(b, s, opr1->reg.index, offset, base) ^ opc;
                     }
@@ -318,14 +329,8 @@ static uint32_t asm_ldrstr(arm64_asm_inst_t *inst) {
             case STRH:
             case STR:
                 if (opr2->indirect.prepost == 0) {
-                    if (offset >= 0) {
-                        if (inst->opcode == STR) {
-                            offset = offset >> (2 + sz);
-                        } else if (inst->opcode == STRH) {
-                            offset = offset >> 1;
-                        }
-
-                        return W_STR_UIMM((inst->opcode - STRB) | sz, opr1->reg.index, offset, base);
+                    if (scaled) {
+                        return W_STR_UIMM((inst->opcode - STRB) | sz, opr1->reg.index, offset >> shift, base);
                     } else {
                         return W_STUR((inst->opcode - STRB) | sz, opr1->reg.index, offset, base);
                     }
@@ -572,12 +577,14 @@ static uint32_t asm_f_ldrstr(arm64_asm_inst_t *inst) {
         assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
         uint32_t base = opr2->indirect.reg->index;
         uint32_t prepost = pre_post_map[opr2->indirect.prepost];
+        bool scaled = opr2->indirect.prepost == 0 && fits_uimm12(offset, 2 + sz);
+        assert(scaled || fits_imm9(offset));
 
         switch (inst->opcode) {
             case F_LDR: {
                 uint32_t s = 0;
                 if (opr2->indirect.prepost == 0) {
-                    if (offset >= 0)
+                    if (scaled)
                         return F_LDR_UIMM(sz, s, opr1->reg.index, offset >> (2 + sz), base);
                     else
                         return F_LDUR(sz, s, opr1->reg.index, offset, base);
@@ -587,7 +594,7 @@ static uint32_t asm_f_ldrstr(arm64_asm_inst_t *inst) {
             } break;
             case F_STR:
                 if (opr2->indirect.prepost == 0) {
-                    if (offset >= 0)
+                    if (scaled)
                         return F_STR_UIMM(sz, opr1->reg.index, offset >> (2 + sz), base);
                     else
                         return F_STUR(sz, opr1->reg.index, offset, base);
-- 
2.43.0


From c26be8fcd4dada2999e6977b70564e8635507d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:16 +0000
Subject: [PATCH 08/23] fix: scale AArch64 pair offsets by the register size

---
 src/binary/encoding/arm64/asm.h    |  8 ++++----
 src/binary/encoding/arm64/opcode.c | 10 ++++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/binary/encoding/arm64/asm.h b/src/binary/encoding/arm64/asm.h
index ea782c6..bcf718c 100644
--- a/src/binary/encoding/arm64/asm.h
+++ b/src/binary/encoding/arm64/asm.h
@@ -564,8 +564,8 @@ typedef struct {
 #define W_STUR(b, rt, ofs, base) (0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
 #define W_STR_UIMM(b, rt, ofs, base) (0x39000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
 #define W_STR(b, rt, ofs, base, prepost) (0x38000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define W_LDP(sz, rs1, rs2, ofs, base, prepost) (0x28400000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
-#define W_STP(sz, rs1, rs2, ofs, base, prepost) (0x28000000U | ((sz) << 31) | ((prepost) << 23) | (((((ofs) >> 3) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_LDP(sz, rs1, rs2, ofs, base, prepost) (0x28400000U | ((sz) << 31) | ((prepost) << 23) | ((((ofs) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
+#define W_STP(sz, rs1, rs2, ofs, base, prepost) (0x28000000U | ((sz) << 31) | ((prepost) << 23) | ((((ofs) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 
 #define W_ORN_S(sf, rd, rn, rm, imm6) (0xAA2003E0U | ((sf) << 31) | ((rd) << 0) | ((rn) << 5) | ((rm) << 16) | ((imm6) << 10))
 
@@ -612,8 +612,8 @@ typedef struct {
 #define F_STUR(b, rt, ofs, base) (0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((base) << 5) | (rt))
 #define F_STR_UIMM(b, rt, ofs, base) (0xbd000000U | ((b) << 30) | ((((ofs) & ((1U << 12) - 1))) << 10) | ((base) << 5) | (rt))
 #define F_STR(b, rt, ofs, base, prepost) (0xbc000000U | ((b) << 30) | ((((ofs) & ((1U << 9) - 1))) << 12) | ((prepost) << 10) | ((base) << 5) | (rt))
-#define F_LDP(b, rt, ru, base, ofs, prepost) (0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
-#define F_STP(b, rt, ru, base, ofs, prepost) (0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 10) - (1 << 3)))) << (15 - 3)) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_LDP(b, rt, ru, base, ofs, prepost) (0x2c400000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 7) - 1))) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
+#define F_STP(b, rt, ru, base, ofs, prepost) (0x2c000000U | ((b) << 30) | ((prepost) << 23) | ((((ofs) & ((1U << 7) - 1))) << 15) | ((ru) << 10) | ((base) << 5) | (rt))
 
 #define F_LDR_R(sz, rt, base, rm, s, s2, option) (0xbc700800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 #define F_STR_R(sz, rt, base, rm, s2, option) (0xbc300800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
diff --git a/src/binary/encoding/arm64/opcode.c b/src/binary/encoding/arm64/opcode.c
index c0db24d..b652621 100644
--- a/src/binary/encoding/arm64/opcode.c
+++ b/src/binary/encoding/arm64/opcode.c
@@ -406,7 +406,10 @@ static uint32_t asm_ldpstp(arm64_asm_inst_t *inst) {
     arm64_asm_operand_t *opr3 = inst->operands[2];
     assert(opr3->indirect.reg->size == QWORD);
     int64_t offset = opr3->indirect.offset;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+    // imm7 scaled by the register size
+    uint32_t shift = 2 + sz;
+    assert((offset & ((1 << shift) - 1)) == 0 && offset < (64 << shift) && offset >= -(64 << shift));
+    offset >>= shift;
     uint32_t base = opr3->indirect.reg->index;
     uint32_t prepost = pre_post_map[opr3->indirect.prepost];
     switch (inst->opcode) {
@@ -634,7 +637,10 @@ static uint32_t asm_f_ldpstp(arm64_asm_inst_t *inst) {
     arm64_asm_operand_t *opr3 = inst->operands[2];
     assert(opr3->indirect.reg->size == QWORD);
     int64_t offset = opr3->indirect.offset;
-    assert(offset < (1 << (6 + 3)) && offset >= -(1 << (6 + 3)));
+    // imm7 scaled by the register size
+    uint32_t shift = 2 + sz;
+    assert((offset & ((1 << shift) - 1)) == 0 && offset < (64 << shift) && offset >= -(64 << shift));
+    offset >>= shift;
     uint32_t base = opr3->indirect.reg->index;
     uint32_t prepost = pre_post_map[opr3->indirect.prepost];
     switch (inst->opcode) {
-- 
2.43.0


From 5f091cf71dfb13a18af9f04740d89efff76beef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:16 +0000
Subject: [PATCH 09/23] fix: honour the register width of the AArch64 mvn
 instruction

---
 src/binary/encoding/arm64/asm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/encoding/arm64/asm.h b/src/binary/encoding/arm64/asm.h
index bcf718c..806e01b 100644
--- a/src/binary/encoding/arm64/asm.h
+++ b/src/binary/encoding/arm64/asm.h
@@ -567,7 +567,7 @@ typedef struct {
 #define W_LDP(sz, rs1, rs2, ofs, base, prepost) (0x28400000U | ((sz) << 31) | ((prepost) << 23) | ((((ofs) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 #define W_STP(sz, rs1, rs2, ofs, base, prepost) (0x28000000U | ((sz) << 31) | ((prepost) << 23) | ((((ofs) & ((1U << 7) - 1))) << 15) | ((rs2) << 10) | ((base) << 5) | (rs1))
 
-#define W_ORN_S(sf, rd, rn, rm, imm6) (0xAA2003E0U | ((sf) << 31) | ((rd) << 0) | ((rn) << 5) | ((rm) << 16) | ((imm6) << 10))
+#define W_ORN_S(sf, rd, rn, rm, imm6) (0x2A2003E0U | ((sf) << 31) | ((rd) << 0) | ((rn) << 5) | ((rm) << 16) | ((imm6) << 10))
 
 #define W_LDR_R(sz, rt, base, rm, s, s2, option) (0x38600800U | ((sz) << 30) | ((s) << 23) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
 #define W_STR_R(sz, rt, base, rm, s2, option) (0x38200800U | ((sz) << 30) | ((rm) << 16) | ((option) << 13) | ((s2) << 12) | ((base) << 5) | (rt))
-- 
2.43.0


From 59491889b2e11045f90dfb9cd1837cf866056c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:16 +0000
Subject: [PATCH 10/23] fix: refuse AArch64 immediates and branch offsets that
 do not fit

---
 src/binary/encoding/arm64/opcode.c | 37 ++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/binary/encoding/arm64/opcode.c b/src/binary/encoding/arm64/opcode.c
index b652621..9993db0 100644
--- a/src/binary/encoding/arm64/opcode.c
+++ b/src/binary/encoding/arm64/opcode.c
@@ -46,6 +46,7 @@ static uint32_t asm_mov(arm64_asm_inst_t *inst) {
         case ARM64_ASM_OPERAND_IMMEDIATE: {
             uint32_t sz = opr1->reg.size == QWORD ? 1 : 0;
             int64_t imm = opr2->immediate;
+            assert(imm >= -0x10000 && imm <= 0xFFFF);
             if (imm >= 0) {
                 return W_MOVZ(sz, opr1->reg.index, imm, 0);
             } else {
@@ -67,10 +68,20 @@ static uint32_t asm_movk(arm64_asm_inst_t *inst) {
 
     assert(opr3->type == ARM64_ASM_OPERAND_SHIFT && (opr3->immediate & 15) == 0);
     uint32_t sz = opr1->reg.size == QWORD ? 1 : 0;
+    assert(opr2->immediate >= 0 && opr2->immediate <= 0xFFFF);
+    assert(opr3->immediate >= 0 && opr3->immediate < (sz ? 64 : 32));
 
     return W_MOVK(sz, opr1->reg.index, opr2->immediate, opr3->immediate >> 4);
 }
 
+static void assert_extend(int64_t option, int64_t imm, uint32_t sz) {
+    if (option < 8) {
+        assert(option >= 0 && imm >= 0 && imm <= 4);
+    } else {
+        assert(option <= 10 && imm >= 0 && imm < (sz ? 64 : 32)); // 8=lsl, 9=lsr, 10=asr
+    }
+}
+
 static uint32_t asm_3r(arm64_asm_inst_t *inst) {
     arm64_asm_operand_t *opr1 = inst->operands[0];
     arm64_asm_operand_t *opr2 = inst->operands[1];
@@ -91,6 +102,7 @@ static uint32_t asm_3r(arm64_asm_inst_t *inst) {
                 arm64_asm_operand_t *ext = inst->operands[3];
                 assert(ext->type == ARM64_ASM_OPERAND_EXTEND);
                 int64_t option = ext->extend.option;
+                assert_extend(option, ext->extend.imm, sz);
                 if (option < 8) {
                     // extend
                     return W_ADD_E(sz, opr1->reg.index, opr2->reg.index, opr3->reg.index, option, ext->extend.imm);
@@ -110,6 +122,7 @@ static uint32_t asm_3r(arm64_asm_inst_t *inst) {
                 arm64_asm_operand_t *ext = inst->operands[3];
                 assert(ext->type == ARM64_ASM_OPERAND_EXTEND);
                 int64_t option = ext->extend.option;
+                assert_extend(option, ext->extend.imm, sz);
                 if (option < 8) {
                     // extend
                     return W_SUB_E(sz, opr1->reg.index, opr2->reg.index, opr3->reg.index, option, ext->extend.imm);
@@ -177,10 +190,13 @@ static uint32_t asm_2ri(arm64_asm_inst_t *inst) {
             else
                 return W_ADD_I(sz, opr1->reg.index, opr2->reg.index, -imm);
         case LSL_I:
+            assert(imm >= 0 && imm < (sz ? 64 : 32));
             return P_LSL_I(sz, opr1->reg.index, opr2->reg.index, imm);
         case LSR_I:
+            assert(imm >= 0 && imm < (sz ? 64 : 32));
             return P_LSR_I(sz, opr1->reg.index, opr2->reg.index, imm);
         case ASR_I:
+            assert(imm >= 0 && imm < (sz ? 64 : 32));
             return P_ASR_I(sz, opr1->reg.index, opr2->reg.index, imm);
         default:
             assert(false);
@@ -437,6 +453,14 @@ static uint32_t asm_cset(arm64_asm_inst_t *inst) {
     return P_CSET(sz, opr1->reg.index, opr2->cond);
 }
 
+// branch offsets count instructions in a signed field of the given width
+static int64_t branch_offset(int64_t offset, int bits) {
+    assert((offset & 3) == 0);
+    offset = offset / 4;
+    assert(offset >= -(1LL << (bits - 1)) && offset < (1LL << (bits - 1)));
+    return offset;
+}
+
 static uint32_t asm_b(arm64_asm_inst_t *inst) {
     arm64_asm_operand_t *opr1 = inst->operands[0];
     int64_t offset;
@@ -450,7 +474,7 @@ static uint32_t asm_b(arm64_asm_inst_t *inst) {
         return 0;
     }
 
-    offset = offset / 4;
+    offset = branch_offset(offset, 26);
 
     return W_B(offset);
 }
@@ -469,7 +493,7 @@ static uint32_t asm_bl(arm64_asm_inst_t *inst) {
         return 0;
     }
 
-    offset = offset / 4;
+    offset = branch_offset(offset, 26);
 
     return W_BL(offset);
 }
@@ -496,7 +520,7 @@ static uint32_t asm_bcc(arm64_asm_inst_t *inst) {
         return 0;
     }
 
-    offset = offset / 4; // 将偏移量调整为指令地址的单位
+    offset = branch_offset(offset, 19); // 将偏移量调整为指令地址的单位
     return W_BCC(cond, offset);
 }
 
@@ -515,7 +539,7 @@ static uint32_t asm_cbz(arm64_asm_inst_t *inst) {
         return 0;
     }
 
-    offset = offset / 4; // 将偏移量调整为指令地址的单位
+    offset = branch_offset(offset, 19); // 将偏移量调整为指令地址的单位
     return W_CBZ(sf, opr1->reg.index, offset);
 }
 
@@ -534,7 +558,7 @@ static uint32_t asm_cbnz(arm64_asm_inst_t *inst) {
         return 0;
     }
 
-    offset = offset / 4; // 将偏移量调整为指令地址的单位
+    offset = branch_offset(offset, 19); // 将偏移量调整为指令地址的单位
     return W_CBNZ(sf, opr1->reg.index, offset);
 }
 
@@ -553,6 +577,7 @@ static uint32_t asm_ret(arm64_asm_inst_t *inst) {
 
 static uint32_t asm_svc(arm64_asm_inst_t *inst) {
     arm64_asm_operand_t *opr1 = inst->operands[0];
+    assert(opr1->immediate >= 0 && opr1->immediate <= 0xFFFF);
     return W_SVC(opr1->immediate);
 }
 
@@ -563,6 +588,7 @@ static uint32_t asm_mrs(arm64_asm_inst_t *inst) {
     // 确保目标寄存器是64位的
     if (opr1->reg.size == QWORD) {
         // 从立即数操作数中获取系统寄存器编号
+        assert(opr2->immediate >= 0 && opr2->immediate <= 0x7FFF);
         uint32_t sysreg = (uint32_t) opr2->immediate;
         return W_MRS(opr1->reg.index, sysreg);
     }
@@ -733,6 +759,7 @@ static uint32_t asm_fmov_i(arm64_asm_inst_t *inst) {
     arm64_asm_operand_t *opr1 = inst->operands[0];
     arm64_asm_operand_t *opr2 = inst->operands[1];
     uint32_t sz = opr1->reg.size == QWORD ? 1 : 0;
+    assert(opr2->immediate >= INT8_MIN && opr2->immediate <= UINT8_MAX);
     uint8_t imm8 = (uint8_t) (opr2->immediate & 0xFF);
 
     return FMOV_I(sz, opr1->reg.index, imm8);
-- 
2.43.0


From 79f57c91fcfe343fefa2cc713ebb54d8eff0db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:35 +0000
Subject: [PATCH 11/23] fix: emit the opcode byte of add rm8, r8

The opcode is 0x00, which the encoder took for the end of the opcode, so an
add of a byte register to memory lost its opcode byte.
---
 src/binary/encoding/amd64/opcode.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index be7573c..84128de 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -2077,9 +2077,9 @@ void opcode_format_encoding(amd64_binary_format_t *format, uint8_t *data, uint8_
     }
 
     uint8_t j = 0;
-    while (j < 3 && format->opcode[j] > 0) {
-        data[(*count)++] = format->opcode[j++];
-    }
+    do {
+        data[(*count)++] = format->opcode[j++]; // opcode 0x00 (add rm8, r8) is valid as the first byte
+    } while (j < 3 && format->opcode[j] > 0);
 
     if (format->modrm != NULL) {
         opcode_modrm_encoding(format, &data[(*count)++]);
-- 
2.43.0


From 727caf17749b706b276f74f67c79f460cd411fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:35 +0000
Subject: [PATCH 12/23] fix: emit the SIB byte for x86-64 indirect operands
 based on rsp or r12

These bases have no ModRM-only form; the encoder produced a different or a
truncated instruction for them.
---
 src/binary/encoding/amd64/opcode.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index 84128de..b02a982 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -1729,6 +1729,11 @@ amd64_binary_format_t *opcode_fill(amd64_opcode_inst_t *inst, amd64_asm_inst_t a
                 int32_to_uint8(r->disp, temp);
                 set_disp(format, r->reg, temp, count);
 
+                // rsp/r12 as base needs a SIB byte
+                if (format->modrm->rm == MODRM_MOD_SIB_FOLLOWS_RM) {
+                    format->sib = new_sib(0, 4, r->reg->index);
+                }
+
                 // 正确设置REX.B
                 if (ext_exists[OPCODE_EXT_REX_W] || ext_exists[OPCODE_EXT_REX]) {
                     format->rex_prefix->b = (r->reg->index > 7);
@@ -1776,6 +1781,11 @@ amd64_binary_format_t *opcode_fill(amd64_opcode_inst_t *inst, amd64_asm_inst_t a
                     set_disp(format, r->reg, temp, count);
                 }
 
+                // rsp/r12 as base needs a SIB byte
+                if ((r->reg->index & 7) == MODRM_MOD_SIB_FOLLOWS_RM) {
+                    format->sib = new_sib(0, 4, r->reg->index);
+                }
+
                 if (ext_exists[OPCODE_EXT_REX_W] || ext_exists[OPCODE_EXT_REX]) {
                     format->rex_prefix->b = r->reg->index > 7;
                 }
-- 
2.43.0


From 305580d2f0b10cf018379404d7dd0166d8889a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:35 +0000
Subject: [PATCH 13/23] fix: keep the displacement of x86-64 SIB operands based
 on rbp or r13

The zero displacement these bases need when there is none replaced the
requested displacement as well.
---
 src/binary/encoding/amd64/opcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index b02a982..92390ea 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -1918,7 +1918,7 @@ amd64_binary_format_t *opcode_fill(amd64_opcode_inst_t *inst, amd64_asm_inst_t a
                     }
 
                     // r13/rbp Special case treatment
-                    if (sib_reg->base->index == 13 || sib_reg->base->index == 5) {
+                    if (sib_reg->disp == 0 && (sib_reg->base->index == 13 || sib_reg->base->index == 5)) {
                         format->modrm->mod = MODRM_MOD_INDIRECT_REGISTER_BYTE_DISP;
                         uint8_t temp[1] = {0};
                         set_disp(format, sib_reg->base, temp, 1);
-- 
2.43.0


From f338a1406cabe9c5f0bd60265a31105116d12e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:54 +0000
Subject: [PATCH 14/23] fix: put the mandatory prefix of xorpd before REX

A REX prefix followed by 66 is ignored by the processor, so xorpd on xmm8 and
above worked on the wrong registers.
---
 src/binary/encoding/amd64/opcode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index 92390ea..3489505 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -434,7 +434,7 @@ amd64_opcode_inst_t shr_rm64_imm8 = {"shr", "shr", 0, {0xC1}, {OPCODE_EXT_REX_W,
 
 // float ------------------------------------------------------------------------------------------------------
 // float xor ------------------------------------------------------------------------------------------------------
-amd64_opcode_inst_t xorpd_xmm1_xmm2m128 = {"xor", "xorpd", 0, {0x66, 0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S64, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M64, ENCODING_TYPE_MODRM_RM}}};
+amd64_opcode_inst_t xorpd_xmm1_xmm2m128 = {"xor", "xorpd", 0x66, {0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S64, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M64, ENCODING_TYPE_MODRM_RM}}};
 amd64_opcode_inst_t xorps_xmm1_xmm2m128 = {"xor", "xorps", 0, {0x0F, 0x57}, {OPCODE_EXT_SLASHR}, {{OPERAND_TYPE_XMM1S32, ENCODING_TYPE_MODRM_REG}, {OPERAND_TYPE_XMM2M32, ENCODING_TYPE_MODRM_RM}}};
 
 
-- 
2.43.0


From cb6967dbcf3c182a34d260ae28f8db2b3b190ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:54 +0000
Subject: [PATCH 15/23] fix: never encode ah/bh/ch/dh together with a REX
 prefix

With REX the same encoding names spl/bpl/sil/dil. The remainder of an 8-bit
division is moved out of ah through al, and the encoder refuses the
combination.
---
 src/binary/encoding/amd64/opcode.c | 2 ++
 src/lower/amd64.c                  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index 3489505..08d6434 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -1336,6 +1336,8 @@ amd64_opcode_inst_t *opcode_select(amd64_asm_inst_t *asm_inst) {
         current = table_get(current->succs, key);
     }
 
+    assertf(!has64_reg || !has_high_eight_reg, "operation %s combines ah/bh/ch/dh with a register that needs rex", asm_inst->name);
+
     amd64_opcode_insts_t temps = current->insts;
 
     amd64_opcode_insts_t insts = {
diff --git a/src/lower/amd64.c b/src/lower/amd64.c
index 653bacb..1201500 100644
--- a/src/lower/amd64.c
+++ b/src/lower/amd64.c
@@ -269,6 +269,11 @@ static linked_t *amd64_lower_factor(closure_t *c, lir_op_t *op) {
         // 执行8位除法，被除数在AX，除数是8位操作数
         // output 必须是实际结果所在的寄存器，否则寄存器分配器会认为 RAX 空闲而提前覆盖
         linked_push(list, lir_op_new(op_code, dividend_operand, op->second, result_operand));
+        if (result_operand == ah_operand) {
+            // ah cannot be combined with a register that needs a REX prefix
+            linked_push(list, lir_op_move(al_operand, ah_operand));
+            result_operand = al_operand;
+        }
         linked_push(list, lir_op_move(op->output, result_operand));
     } else {
         // 16位及以上的除法处理（原有逻辑）
-- 
2.43.0


From 0aa5f3c9071f3de077c574f7593f6a5d421751f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:54 +0000
Subject: [PATCH 16/23] fix: refuse rsp as an x86-64 index register

Its encoding means that there is no index.
---
 src/binary/encoding/amd64/opcode.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary/encoding/amd64/opcode.c b/src/binary/encoding/amd64/opcode.c
index 08d6434..678956b 100644
--- a/src/binary/encoding/amd64/opcode.c
+++ b/src/binary/encoding/amd64/opcode.c
@@ -1870,6 +1870,7 @@ amd64_binary_format_t *opcode_fill(amd64_opcode_inst_t *inst, amd64_asm_inst_t a
 
         } else if (asm_operand->type == AMD64_ASM_OPERAND_TYPE_SIB_REG) {
             asm_sib_reg_t *sib_reg = asm_operand->value;
+            assertf(!sib_reg->index || sib_reg->index->index != 4, "rsp cannot be an index register");
             if (operand.encoding == ENCODING_TYPE_MODRM_RM) {
                 if (format->modrm == NULL) {
                     format->modrm = new_modrm();
-- 
2.43.0


From 04faeda4ddeaa23c951d91c9af6c4e3bf3514b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:04:58 +0000
Subject: [PATCH 17/23] fix: reuse a deleted hash slot when no empty slot is
 left

Inserting and deleting distinct keys leaves deleted markers behind. Once
every slot of the table held a live key or such a marker, looking up a key
that is not in the table aborted the program. Return the first deleted slot
instead.
---
 runtime/nutils/hash.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 72d986b..6ea3d93 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -82,6 +82,11 @@ static uint64_t find_hash_slot(uint64_t *hash_table, uint64_t capacity, uint8_t
 
     while (true) {
         if (attempts >= capacity) { // 防止无限循环
+            // 所有 slot 都已使用，但存在 deleted slot 可供复用
+            if (first_deleted_index != -1) {
+                return first_deleted_index;
+            }
+
             // 哈希表已满，需要扩容
             assert(false && "hash table is full, need to grow");
             return -1;
-- 
2.43.0


From 90f30ff66087a97628d81ef7706591bfb73e4f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:04:58 +0000
Subject: [PATCH 18/23] fix: keep set entries consistent when an element is
 deleted

Deleting an element cleared its hash slot, which cut the probe chain of
other elements, and left a hole in the key array, so a later add could
overwrite the key of another element. Deleting an absent element shrank the
set. Delete now moves the last key into the hole, leaves a deleted marker
and ignores absent elements.
---
 runtime/nutils/set.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/runtime/nutils/set.c b/runtime/nutils/set.c
index 5349ee0..590d025 100644
--- a/runtime/nutils/set.c
+++ b/runtime/nutils/set.c
@@ -37,9 +37,8 @@ static bool _rt_set_add(n_set_t *m, void *key_ref) {
         key_index = m->length++;
         added = true;
     } else if (hash_value_deleted(hash_value)) {
-        m->length++;
+        key_index = m->length++;
         added = true;
-        key_index = extract_data_index(hash_value);
     } else {
         // 绝对的修改
         key_index = extract_data_index(hash_value);
@@ -183,7 +182,27 @@ void rt_set_delete(n_set_t *m, void *key_ref) {
         return;
     }
     uint64_t hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, key_ref);
-    uint64_t *hash_value = &m->hash_table[hash_index];
-    *hash_value &= 1ULL << HASH_DELETED; // 配置删除标志即可
+    uint64_t hash_value = m->hash_table[hash_index];
+    if (hash_value_empty(hash_value) || hash_value_deleted(hash_value)) {
+        return;
+    }
+
+    uint64_t data_index = extract_data_index(hash_value);
+    uint64_t last_data_index = m->length - 1;
+    rtype_t *key_rtype = rt_find_rtype(m->key_rtype_hash);
+    assert(key_rtype && "cannot find key_rtype by hash");
+    uint64_t key_size = key_rtype->storage_size;
+
+    // key_data 需要保持紧凑, 使用最后一个 key 填补空缺
+    if (data_index != last_data_index) {
+        void *last_key_ref = m->key_data + last_data_index * key_size;
+        uint64_t last_hash_index = find_hash_slot(m->hash_table, m->capacity, m->key_data, m->key_rtype_hash, last_key_ref);
+
+        rti_write_barrier_rtype(m->key_data + data_index * key_size, last_key_ref, key_rtype);
+        rt_set_data_index(m, last_hash_index, data_index);
+    }
+
+    m->hash_table[hash_index] = (1ULL << HASH_SET) | (1ULL << HASH_DELETED);
+    memset(m->key_data + last_data_index * key_size, 0, key_size);
     m->length--;
 }
-- 
2.43.0


From a06283eaf655da273ef7e3cea31e104afafb25fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:05:37 +0000
Subject: [PATCH 19/23] fix: compare map and set keys on their whole contents

Keys were turned into a C string before hashing and comparing, so keys that
agree up to the first zero byte were treated as the same key. Struct, array
and union keys with a zero byte, and strings holding one, overwrote each
other. Hash and compare the key bytes directly.
---
 runtime/nutils/hash.h | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/runtime/nutils/hash.h b/runtime/nutils/hash.h
index 6ea3d93..21d3cd4 100644
--- a/runtime/nutils/hash.h
+++ b/runtime/nutils/hash.h
@@ -40,21 +40,35 @@ static inline uint64_t extract_data_index(uint64_t hash_value) {
     return hash_value << 2 >> 2;
 }
 
+/**
+ * key 的内容, string 取其字符数据, 其余类型取存储的全部字节(其中可能包含 0)
+ */
+static inline uint8_t *key_content(rtype_t *rtype, void *key_ref, uint64_t *size) {
+    if (rtype->kind == TYPE_STRING) {
+        n_string_t *str = key_ref;
+        *size = str->length;
+        return str->data;
+    }
+
+    *size = rtype->storage_size;
+    return key_ref;
+}
+
 static inline uint64_t key_hash(rtype_t *rtype, void *key_ref) {
-    char *str = rtype_value_to_str(rtype, key_ref);
-    uint64_t result = hash_string(str);
-    free((void *) str);
-    return result;
+    uint64_t size;
+    uint8_t *data = key_content(rtype, key_ref, &size);
+    if (size == 0) {
+        return 0;
+    }
+    return hash_data(data, size);
 }
 
 static inline bool key_equal(rtype_t *rtype, void *actual, void *expect) {
     DEBUGF("[key_equal] actual=%p, expect=%p", actual, expect);
-    char *actual_str = rtype_value_to_str(rtype, actual);
-    char *expect_str = rtype_value_to_str(rtype, expect);
-    bool result = str_equal(actual_str, expect_str);
-    free((void *) actual_str);
-    free((void *) expect_str);
-    return result;
+    uint64_t actual_size, expect_size;
+    uint8_t *actual_data = key_content(rtype, actual, &actual_size);
+    uint8_t *expect_data = key_content(rtype, expect, &expect_size);
+    return actual_size == expect_size && (actual_size == 0 || memcmp(actual_data, expect_data, actual_size) == 0);
 }
 
 /**
-- 
2.43.0


From 29e10c9ec8599f8ac213a7cb8a2b5437a07dbf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:56 +0000
Subject: [PATCH 20/23] fix: do not truncate the capacity requested by vec
 append to 32 bits

Appending so that the result holds more than INT_MAX elements allocated a
truncated capacity and then copied past the end of the new storage.
---
 runtime/nutils/vec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index 706de90..f61f273 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -4,7 +4,7 @@
 #include "runtime/runtime.h"
 #include "utils/helper.h"
 
-static void rti_vec_grow(n_vec_t *vec, rtype_t *element_rtype, int custom_capacity) {
+static void rti_vec_grow(n_vec_t *vec, rtype_t *element_rtype, int64_t custom_capacity) {
     void *old_data = vec->data;
 
     if (custom_capacity) {
-- 
2.43.0


From c5c55734e5f46b54e09500703555b6336eea1799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:21:56 +0000
Subject: [PATCH 21/23] fix: compare the whole initial vec element with zero

The initial value was compared with an 8 byte zero, reading past it for
larger elements. The elements stayed zero if the bytes behind it happened to
match.
---
 runtime/nutils/vec.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtime/nutils/vec.c b/runtime/nutils/vec.c
index f61f273..0fc6d22 100644
--- a/runtime/nutils/vec.c
+++ b/runtime/nutils/vec.c
@@ -103,8 +103,7 @@ n_vec_t rt_vec_new(int64_t hash, int64_t element_hash, int64_t length, void *val
         vec.data = rti_array_new(element_rtype, capacity);
 
         if (length > 0) {
-            uint64_t zero = 0;
-            if (memcmp(value_ref, &zero, element_size) != 0) {
+            if (!memory_empty(value_ref, element_size)) {
                 DEBUGF("[rt_vec_new] will set default value_ref=%p, element_size=%lu", value_ref, element_size);
 
                 for (int64_t i = 0; i < length; i++) {
-- 
2.43.0


From ccec674e1f233ec228f7482ab051e3f067a21d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:25:27 +0000
Subject: [PATCH 22/23] fix: keep strings with zero bytes out of the constant
 string pool

The pool is keyed by C strings. A string holding a zero byte was looked up
and stored under its prefix, so a different string of the same length was
returned for it. Converting a byte vec to a string looked its data up in the
pool as well, reading past the end of the data.
---
 runtime/nutils/string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtime/nutils/string.c b/runtime/nutils/string.c
index 8cf1eaa..115e3e6 100644
--- a/runtime/nutils/string.c
+++ b/runtime/nutils/string.c
@@ -13,12 +13,18 @@ n_vec_t string_to_vec(n_string_t *src) {
 }
 
 n_string_t vec_to_string(n_vec_t *vec) {
-    return string_new_with_pool(vec->data, vec->length);
+    // vec 的数据不以 '\0' 结尾，不能作为 const_str_pool 的 key
+    return string_new(vec->data, vec->length);
 }
 
 n_string_t string_new_with_pool(void *raw_string, int64_t length) {
     DEBUGF("[string_new_with_pool] raw_string=%s, length=%lu, ptr=%p", (char *) raw_string, length, raw_string);
 
+    // const_str_pool 的 key 在第一个 '\0' 处结束，不能区分包含 '\0' 的字符串
+    if (memchr(raw_string, '\0', length) != NULL) {
+        return string_new(raw_string, length);
+    }
+
     // check const
     mutex_lock(&const_str_pool_locker);
     n_string_t *pooled = sc_map_get_sv(&const_str_pool, (char *) raw_string);
-- 
2.43.0


From 8d57126e0bdbe51cfdc4015f8e6bd6c095778865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:12:03 +0000
Subject: [PATCH 23/23] fix: do not wrap COFF symbol addresses at 4 GiB

The address of a symbol was summed in 32 bits. An address past 4 GiB
wrapped and a relocation stored a wrong value instead of reporting an
error.
---
 src/ld/ld_coff_writer.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ld/ld_coff_writer.c b/src/ld/ld_coff_writer.c
index 88ccf34..8763884 100644
--- a/src/ld/ld_coff_writer.c
+++ b/src/ld/ld_coff_writer.c
@@ -767,8 +767,8 @@ static bool ld_coff_symbol_address(ld_coff_context_t *ctx,
         if (global->section) {
             if (!global->section->output) return false;
             *output = global->section->output;
-            *rva = (*output)->rva + global->section->output_offset +
-                   global->value;
+            *rva = (uint64_t) (*output)->rva +
+                   global->section->output_offset + global->value;
             return true;
         }
         *rva = global->value;
@@ -783,7 +783,8 @@ static bool ld_coff_symbol_address(ld_coff_context_t *ctx,
         !symbol->section->output || symbol->section->object != object)
         return false;
     *output = symbol->section->output;
-    *rva = (*output)->rva + symbol->section->output_offset + symbol->value;
+    *rva = (uint64_t) (*output)->rva + symbol->section->output_offset +
+           symbol->value;
     return true;
 }
 
-- 
2.43.0

