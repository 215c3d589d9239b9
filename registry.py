"""Units (real functions under contract) and the properties they decide."""

UNITS = {}
PROPERTIES = {}


def unit(name, file, **kw):
    assert name not in UNITS, name
    UNITS[name] = dict(file=file, **kw)
    return name


def prop(pid, units, **kw):
    PROPERTIES[pid] = dict(units=list(units), **kw)


# ---------------------------------------------------------------- ELF relocations
# one unit per (machine, type): the operands stay fully symbolic
AARCH64 = [0, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 267, 268, 269, 273, 274, 275, 277,
           278, 279, 280, 282, 283, 284, 285, 286, 299, 309, 311, 312, 313, 513, 514, 541, 542,
           549, 550, 551, 552, 553, 554, 555, 556, 557, 558, 559, 562, 563, 564, 569, 570, 571]
X86_64 = [0, 1, 2, 3, 4, 9, 10, 11, 12, 13, 14, 15, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28,
          29, 31, 32, 33, 34, 35, 41, 42]
RISCV = [0, 1, 2, 3, 8, 9, 10, 11, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
         32, 33, 34, 35, 36, 37, 38, 39, 40, 44, 45, 51, 52, 53, 54, 55, 56, 57]
NEVER_OK = {("x86_64", t) for t in (19, 20, 34, 35)}
NO_REFUSAL = {("aarch64", t) for t in (0, 257, 264, 266, 268, 277, 278, 514)} | \
             {("x86_64", t) for t in (0, 1)} | \
             {("riscv64", t) for t in (0, 2, 3, 33, 34, 35, 36, 37, 38, 39, 40, 51, 52, 53, 54, 55, 56)}
RELOC_UNITS = []
for arch, m, types in (("aarch64", 183, AARCH64), ("x86_64", 62, X86_64), ("riscv64", 243, RISCV)):
    for t in types:
        RELOC_UNITS.append(unit(
            "elf_%s_%d" % (arch, t), "elf_reloc_apply.c", enforce=["ld_elf_relocation_apply"],
            defines=["VF_MACHINE=%d" % m, "VF_TYPE=%d" % t,
                     "VF_HAS_OK=%d" % ((arch, t) not in NEVER_OK),
                     "VF_HAS_ERR=%d" % ((arch, t) not in NO_REFUSAL)],
            functions=["ld_elf_relocation_apply", "ld_elf_reloc_apply_%s" % arch],
            srcs=["$REPO/src/ld/ld_elf_riscv_uleb.c"], unwind=20))

prop("C01", RELOC_UNITS,
     note="One enforced contract per machine and relocation type on ld_elf_relocation_apply; operands, addends and place bytes are unconstrained 64-bit/8-bit values. No loop bound is involved (all loops in the code under contract are constant-trip).",
     assumptions=["diagnostic text formatting (vsnprintf, ld_elf_fail) is stubbed; only the returned status is used"])

# ---------------------------------------------------------------- linker rewrites
RW = []
ELF_STUB = ["diagnostic text formatting (vsnprintf, ld_elf_fail) is stubbed; only the returned status is used"]
for t in (19, 20, 34):
    RW.append(unit("x86_tls_pair_%d" % t, "elf_x86_rewrite.c",
                   enforce=["ld_elf_relocation_apply_x86_tls_pair"],
                   defines=["VF_KIND=1", "VF_TYPE=%d" % t], srcs=["$REPO/src/ld/ld_elf_riscv_uleb.c"], unwind=26))
RW.append(unit("x86_gottpoff", "elf_x86_rewrite.c", enforce=["ld_elf_relocation_apply_x86_gottpoff"],
               defines=["VF_KIND=2"], srcs=["$REPO/src/ld/ld_elf_riscv_uleb.c"], unwind=26))
RW.append(unit("x86_gotpcrelx", "elf_x86_rewrite.c", enforce=["ld_elf_relocation_apply_x86_gotpcrelx"],
               defines=["VF_KIND=3"], weight=90, srcs=["$REPO/src/ld/ld_elf_riscv_uleb.c"], unwind=26))
RW.append(unit("riscv_uleb", "elf_uleb.c", enforce=["ld_elf_riscv_uleb_apply"], defines=["VF_KIND=1"], unwind=14))
RW.append(unit("riscv_uleb_pair", "elf_uleb.c", enforce=["ld_elf_relocation_apply_riscv_uleb_pair"],
               defines=["VF_KIND=2"], unwind=14))
RW.append(unit("riscv_uleb_sub_addend", "elf_uleb.c", enforce=["ld_elf_riscv_uleb_apply"],
               defines=["VF_KIND=1", "VF_SUB_ADDEND=1"], unwind=14))
RW.append(unit("riscv_uleb_pair_sub_addend", "elf_uleb.c", enforce=["ld_elf_relocation_apply_riscv_uleb_pair"],
               defines=["VF_KIND=2", "VF_SUB_ADDEND=1"], unwind=14))
for n in (6, 16):
    RW.append(unit("riscv_align_%d" % n, "elf_align.c", functions=["ld_elf_relocation_apply"], unwind=18,
                   defines=["VF_SIZE=%d" % n],
                   srcs=["$REPO/src/ld/ld_elf_riscv_uleb.c"], bounded="padding of at most 16 bytes"))
RW.append(unit("riscv_relax", "elf_relax.c", unwind=14, defines=["N=8", "R=2"], weight=100, functions=[
    "ld_elf_riscv_relax_plan_build", "ld_elf_riscv_relax_plan_layout", "ld_elf_riscv_relax_emit", "ld_elf_riscv_relax_map"],
    bounded="sections of at most 8 bytes with at most 2 alignment regions",
    assumptions=["qsort sorts (libc model)"]))

prop("C02", RW, level="proof",
     note="Contracts on the x86-64 TLS/GOT rewriters and ULEB128 appliers are discharged for all inputs (section windows of up to 24 bytes; the code under contract has no loop over the section). Alignment padding and relaxation plans are bounded (at most 16 bytes of padding, two regions), labelled bounded in the evidence.",
     assumptions=ELF_STUB)

# ---------------------------------------------------------------- RISC-V encoder
RV_SHAPES = {
    "S_R2": "MV NEG NOT SEXT_B SEXT_H SEXT_W ZEXT_B ZEXT_H ZEXT_W SEQZ SNEZ SLTZ SGTZ",
    "S_LA": "LA", "S_LUIS": "LUIS", "S_ADDIS": "ADDIS",
    "S_R3": "ADD ADDW SUB SUBW MUL MULW DIV DIVU DIVW DIVUW REM REMU REMW REMUW AND OR XOR SLL SLLW SRL SRLW SRA SRAW SLT SLTU",
    "S_R2I": "ADDI ADDIW ANDI ORI XORI SLLI SLLIW SRLI SRLIW SRAI SRAIW SLTI SLTIU",
    "S_LD": "LB LH LW LD LBU LHU LWU", "S_ST": "SB SH SW SD",
    "S_JI": "J", "S_JS": "J", "S_R1": "JR JALR",
    "S_BI": "BEQ BNE BLT BGE BLTU BGEU", "S_BS": "BEQ BNE BLT BGE BLTU BGEU",
    "S_CALL": "CALL", "S_NONE": "RET ECALL",
    "S_F3": "FADD_D FADD_S FSUB_D FSUB_S FMUL_D FMUL_S FDIV_D FDIV_S FSGNJ_D FSGNJ_S FSGNJN_D FSGNJN_S FSGNJX_D FSGNJX_S",
    "S_F2": "FSQRT_D FSQRT_S FMV_D FMV_S FNEG_D FNEG_S FCVT_D_S FCVT_S_D",
    "S_RF2": "FEQ_D FEQ_S FLT_D FLT_S FLE_D FLE_S",
    "S_FLD": "FLD FLW", "S_FST": "FSD FSW",
    "S_FR": "FCVT_D_W FCVT_D_WU FCVT_D_L FCVT_D_LU FCVT_S_W FCVT_S_WU FCVT_S_L FCVT_S_LU",
    "S_RF": "FMV_X_D FMV_X_W FCVT_W_D FCVT_WU_D FCVT_L_D FCVT_LU_D FCVT_W_S FCVT_WU_S FCVT_L_S FCVT_LU_S",
    "S_RFM": "FCVT_W_D FCVT_WU_D FCVT_L_D FCVT_LU_D FCVT_W_S FCVT_WU_S FCVT_L_S FCVT_LU_S",
}
RV_TWO = "SEXT_B SEXT_H ZEXT_H ZEXT_W LA CALL".split()
RVE = []
for shape, ops in RV_SHAPES.items():
    for op in ops.split():
        suffix = {"S_JS": "_sym", "S_BS": "_sym", "S_RFM": "_rm"}.get(shape, "")
        RVE.append(unit("rv_%s%s" % (op.lower(), suffix), "riscv_enc.c",
                        defines=["VF_RAW=RV_" + op, "VF_SHAPE=" + shape, "VF_STEPS=%d" % (2 if op in RV_TWO else 1)],
                        include=["$VERIF/lib/refuse"], include_first=True, unwind=33,
                        functions=["riscv64_asm_inst_encoding", "riscv64_match_opcode"]))
RV_LI = [("12", "0x7ff", None, 1), ("32", "0x7fffffff", "0x7ff", 2), ("44", "0x7fffffff7ffL", "0x7fffffff", 4),
         ("56", "0x7fffffff7ff7ffL", "0x7fffffff7ffL", 6), ("64", "INT64_MAX", "0x7fffffff7ff7ffL", 8)]
for bits, hi, lo, steps in RV_LI:
    RVE.append(unit("rv_li_" + bits, "riscv_enc.c",
                    defines=["VF_RAW=RV_LI", "VF_SHAPE=S_RI", "VF_STEPS=%d" % steps, "VF_LI_HI=" + hi] + (["VF_LI_LO=" + lo] if lo else []),
                    **({"checks": []} if steps > 2 else {}),
                    include=["$VERIF/lib/refuse"], include_first=True, unwind=33, weight=steps * 10, timeout=800,
                    functions=["riscv64_asm_inst_encoding", "riscv64_match_opcode"]))
prop("C03", RVE,
     note="One triple per instruction and operand shape on riscv64_asm_inst_encoding with every register, immediate, rounding mode and machine state symbolic; the emitted bytes are executed by an RV64GC model written from the ISA manual and compared with the meaning of the instruction. All loops are constant-trip (fully unrolled, unwinding assertions discharged).",
     assumptions=["assert() is compiled in (the release flags of the project do not define NDEBUG) and counts as refusal",
                  "jr/jalr are requested on x1..x31 only; symbolic jump/call operands carry offset 0, as everywhere in the back end"])

A64_SHAPES = {
    "S_MOVR": "MOV", "S_MOVI": "MOV", "S_MOVK": "MOVK",
    "S_R3": "ADD SUB MUL SDIV UDIV AND ORR EOR EON LSL LSR ASR", "S_R3X": "ADD SUB",
    "S_R2I": "ADD SUB LSL LSR ASR", "S_R2S": "ADD SUB", "S_R4": "MADD MSUB",
    "S_CMPR": "CMP CMN", "S_CMPI": "CMP CMN", "S_XT": "SXTB SXTH SXTW UXTB UXTH UXTW", "S_MVN": "MVN",
    "S_LS": "LDRB LDRH LDR LDRSB LDRSH STRB STRH STR", "S_LSSYM": "LDRB LDRH LDR", "S_LSP": "LDP STP",
    "S_ADRP": "ADRP", "S_CSET": "CSET",
    "S_BI": "B BL BEQ BNE BHS BLO BMI BPL BVS BVC BHI BLS BGE BLT BGT BLE BAL BNV",
    "S_BS": "B BL BEQ BNE BHS BLO BMI BPL BVS BVC BHI BLS BGE BLT BGT BLE BAL BNV",
    "S_BR": "BR BLR", "S_CBI": "CBZ CBNZ", "S_CBS": "CBZ CBNZ", "S_NONE": "RET NOP", "S_SVC": "SVC", "S_MRS": "MRS",
    "S_FLS": "LDR STR", "S_FLSP": "LDP STP", "S_FMOVR": "FMOV", "S_FMOVG": "FMOV", "S_FMOVI": "FMOV",
    "S_F3": "FADD FSUB FMUL FDIV", "S_F4": "FMADD FMSUB FNMSUB", "S_F2": "FCMP FNEG FSQRT",
    "S_I2F": "SCVTF UCVTF", "S_F2I": "FCVTZS FCVTZU", "S_FCVT": "FCVT",
}
A64_CC = "BEQ BNE BHS BLO BMI BPL BVS BVC BHI BLS BGE BLT BGT BLE BAL BNV".split()
A64E = []
for shape, ops in A64_SHAPES.items():
    for op in ops.split():
        suffix = shape[2:].lower()
        A64E.append(unit("a64_%s_%s" % (op.lower(), suffix), "arm64_enc.c",
                         defines=["VF_RAW=R_" + op, "VF_SHAPE=" + shape] + (["VF_OPC=%d" % A64_CC.index(op)] if op in A64_CC else []),
                         include=["$VERIF/lib/refuse"], include_first=True, unwind=33,
                         functions=["arm64_asm_inst_encoding", "arm64_match_opcode"]))
A64E.append(unit("a64_fmov_imm8", "arm64_fmov.c", functions=["arm64_fmov_double_to_imm8"], unwind=2))
prop("C04", A64E,
     note="One triple per instruction and operand shape on arm64_asm_inst_encoding with register numbers, widths, immediates, addressing modes and machine state symbolic; the emitted word is executed by an A64 model written from the Arm ARM and compared with the meaning of the instruction. All loops are constant-trip (fully unrolled, unwinding assertions discharged).",
     assumptions=["assert() is compiled in (the release flags of the project do not define NDEBUG) and counts as refusal",
                  "SP is an operand only of mov, add and sub and as a memory base; the zero register is not requested where register number 31 means SP",
                  "transfer registers that make a load, store or pair unpredictable are not requested",
                  "register-offset addresses and ldrsw are not requested (the back end cannot build them)",
                  "plain load/store offsets outside -4096..4095 (integer) and -512..511 (floating point) may be refused although the instruction set has a form for some of them"])

# C05: groups of (mnemonic, operation, condition, operand forms)
X86_ALU = {"add": "X_ADD", "sub": "X_SUB", "cmp": "X_CMP", "and": "X_AND", "or": "X_OR", "xor": "X_XOR"}
X86_CC = {"e": 4, "ne": 5, "a": 7, "ae": 3, "b": 2, "be": 6, "g": 15, "ge": 13, "l": 12, "le": 14}
X86 = []


def x86(name, *rows):
    """rows: (mnemonic, operation, condition, operand forms); a leading * asks for every addressing form in the quick tier too"""
    X86.append(unit("x86_" + name, "amd64_enc.c",
                    defines=["VF_ROWS=" + ",".join('{"%s",%s,%d,{%s},%d}' % (mn.lstrip("*"), op, cc, f, mn[0] == "*") for mn, op, cc, fs in rows for f in fs),
                             "VF_GROUP=" + ",".join('"%s"' % mn for mn in dict.fromkeys(r[0].lstrip("*") for r in rows))],
                    defines_thorough=["VF_ALL_FORMS=1"],
                    include=["$VERIF/lib/refuse"], include_first=True, unwind=10, weight=30, timeout=700, object_bits=14,
                    checks=["--bounds-check"], cbmc=["--slice-formula"],
                    unwindset=["vf_harness.%d:120" % k for k in range(4)] + ["one.%d:25" % k for k in range(3)] +
                              ["vf_streq.0:17", "table_get.0:25", "table_get.1:25", "vf_in_group.0:60"],
                    functions=["amd64_opcode_init", "amd64_asm_inst_encoding", "opcode_select", "opcode_fill", "opcode_format_encoding"]))


for b in (8, 16, 32, 64):
    i = "P_I%d" % min(b, 32)
    rmr = ["P_RM%d,P_R%d" % (b, b), "P_R%d,P_M%d" % (b, b)]
    alu = lambda mn: (mn, X86_ALU[mn.lstrip("*")], 0, ["P_RM%d,%s" % (b, i)] + rmr + (["P_RM64,P_I32U"] if b == 64 else []))
    for g in (["add", "sub"], ["cmp", "and"], ["or", "xor"]) if b == 8 else (["*add", "sub", "cmp"], ["and", "or", "xor"]):
        x86("_".join(g).lstrip("*") + str(b), *map(alu, g))
    x86("mov_test%d" % b, ("*mov" if b != 8 else "mov", "X_MOV", 0, ["P_RM%d,%s" % (b, i)] + rmr + (["P_R64,P_I64", "P_R64,P_SEG"] if b == 64 else [])),
        ("test", "X_TEST", 0, ["P_RM%d,P_R%d" % (b, b)]))
    x86("unary_shift%d" % b, *[(mn, op, 0, ["P_RM%d" % b]) for mn, op in
                         {"idiv": "X_IDIV", "div": "X_DIV", "mul": "X_MUL", "imul": "X_IMUL", "neg": "X_NEG", "not": "X_NOT", "inc": "X_INC", "dec": "X_DEC"}.items()],
        *[(mn, op, 0, ["P_RM%d,P_CL" % b] + (["P_RM%d,P_I8" % b] if mn == "shr" else [])) for mn, op in
                         {"sal": "X_SHL", "sar": "X_SAR", "shr": "X_SHR"}.items()])
x86("imul", *[r for b in (16, 32, 64) for r in (("imul", "X_IMUL2", 0, ["P_R%d,P_RM%d" % (b, b)]),
                                               ("imul", "X_IMUL3", 0, ["P_R%d,P_RM%d,P_I%d" % (b, b, min(b, 32)), "P_R%d,P_RM%d,P_I8" % (b, b)]))])
x86("jcc", *[("j" + cc, "X_JCC", n, ["P_I8", "P_I32"]) for cc, n in X86_CC.items()])
x86("setcc", *[("set" + cc, "X_SETCC", n, ["P_RM8"]) for cc, n in X86_CC.items()])
x86("flow", ("jmp", "X_JMP", 0, ["P_I8", "P_I32"]), ("call", "X_CALL", 0, ["P_I32"]), ("*call", "X_CALLI", 0, ["P_RM64"]),
    ("push", "X_PUSH", 0, ["P_RM64"]), ("pop", "X_POP", 0, ["P_RM64"]), ("ret", "X_RET", 0, ["P_END"]),
    ("syscall_inst", "X_SYSCALL", 0, ["P_END"]), ("*lea", "X_LEA", 0, ["P_R64,P_M"]))
x86("movx", ("movsx", "X_MOVSX", 0, ["P_R16,P_RM8", "P_R32,P_RM8", "P_R64,P_RM8", "P_R32,P_RM16", "P_R64,P_RM16", "P_R64,P_RM32"]),
    ("movzx", "X_MOVZX", 0, ["P_R16,P_RM8", "P_R32,P_RM8", "P_R64,P_RM8", "P_R32,P_RM16", "P_R64,P_RM16"]), ("movzx", "X_MOV", 0, ["P_R64Z,P_RM32"]))
for b, t in ((64, "D"), (32, "S")):
    s = "sd" if t == "D" else "ss"
    x86("farith_cvt%d" % b, *[(mn, "X_" + op + t, 0, ["P_X%d,P_XM%d" % (b, b)]) for mn, op in
                          {"add": "ADDS", "sub": "SUBS", "fmul": "MULS", "fdiv": "DIVS", "cmp": "COMIS"}.items()],
        ("cvtsi2" + s, "X_CVTSI2" + s.upper(), 0, ["P_X%d,P_RM32" % b, "P_X%d,P_RM64" % b]),
        ("cvtt%s2si" % s, "X_CVTT%s2SI" % s.upper(), 0, ["P_R32,P_X%d" % b, "P_R64,P_X%d" % b]),
        ("cvtss2sd", "X_CVTSS2SD", 0, ["P_X64,P_X32"]) if b == 64 else ("cvtsd2ss", "X_CVTSD2SS", 0, ["P_X32,P_X64"]))
    x86("fmov%d" % b, ("xor", "X_XXOR", 0, ["P_X%d,P_XM%d" % (b, b)]), ("*mov", "X_MOVS" + t, 0, ["P_X%d,P_M%d" % (b, b), "P_M%d,P_X%d" % (b, b)]),
        ("mov", "X_XCOPY", 0, ["P_X%d,P_X%d" % (b, b)]), *([("movxmm128", "X_XMOV", 0, ["P_X64,P_M128", "P_M128,P_X64"])] if b == 64 else []))
prop("C05", X86,
     note="One triple per group of instructions and operand size on amd64_opcode_init + amd64_asm_inst_encoding with every register, displacement, scale and immediate symbolic, over all addressing forms; the emitted bytes are decoded by an x86-64 decoder written from the Intel SDM and compared with the request. All loops are constant-trip (fully unrolled, unwinding assertions discharged).",
     assumptions=["assert() is compiled in (the release flags of the project do not define NDEBUG) and counts as refusal",
                  "the string-keyed lookup table, decimal conversion, register-name comparison and zeroing allocator around the encoder are replaced by abstract versions (finite map, value as key, fresh zeroed object)",
                  "a shift count register is cl; a SIB scale is 1, 2, 4 or 8 when there is an index register",
                  "custom instruction prefixes (used by no caller) are not requested"])


# ---------------------------------------------------------------- vectors
RT_DEF = ["RUNTIME", "_GNU_SOURCE", "__AMD64=1", "__LINUX=1", "LLHTTP_STATIC_LIB"]
VEC_OPS = ["PUSH", "ITERATOR", "GROW", "APPEND", "CONCAT", "SLICE", "COPY", "INDEX", "CAP", "NEW", "UNSAFE_NEW"]
VEC_FN = {"PUSH": ["rt_vec_push", "rti_vec_grow", "rti_vec_assign"], "ITERATOR": ["rt_vec_iterator", "rti_vec_grow"],
          "GROW": ["rt_vec_grow", "rti_vec_grow"], "APPEND": ["rt_vec_append", "rti_vec_grow"],
          "CONCAT": ["rt_vec_concat", "rt_vec_cap"], "SLICE": ["rt_vec_slice"], "COPY": ["rt_vec_copy"],
          "INDEX": ["rti_vec_access", "rti_vec_assign", "rt_vec_element_addr", "rt_vec_length", "rt_vec_capacity", "rt_vec_ref"],
          "CAP": ["rt_vec_cap", "rt_vec_alloc", "rt_vec_new_out"], "NEW": ["rt_vec_new"],
          "UNSAFE_NEW": ["rt_unsafe_vec_new", "rti_vec_new"]}
VEC = []
for op in VEC_OPS:
    for es in (1, 8, 24):
        for alias in ((0, 1, 2) if op == "APPEND" else (-1, 0, 1, 3) if op == "NEW" else (0,)):
            VEC.append(unit("vec_%s_%d%s" % (op.lower(), es, "_n%d" % alias if op == "NEW" else "_self%d" % alias if alias else ""),
                            "rt_vec.c",
                            defines=RT_DEF + ["OP_%s=%d" % (o, i + 1) for i, o in enumerate(VEC_OPS)] +
                            ["VF_OP=OP_" + op, "VF_ES=%d" % es, "VF_ALIAS=%d" % alias, "VF_N=%d" % alias],
                            include=["$VERIF/lib/refuse"], include_first=True, unwind=26 if not (op == 'APPEND' and alias) else 12 * es + 2, functions=VEC_FN[op],
                            trace_defines=[] if op == "APPEND" and alias else ["VF_MAXLEN=4"],
                            **({"bounded": "length at most 3"} if op == "NEW" else
                               {"bounded": "two concrete length/capacity pairs"} if op == "APPEND" and alias else {})))
prop("C06", VEC,
     note="One triple per vector operation and element size (1, 8 and 24 bytes) on the real functions of vec.c, with symbolic length, capacity, index and bounds up to 2^32 elements and the contents checked at an arbitrary witness byte, so no loop over the data is unrolled. Creation with a fill value (at most 3 elements) and appending a vector to itself (two length/capacity pairs) are bounded and counted apart.",
     assumptions=["rti_gc_malloc / rti_array_new return fresh zeroed memory of the requested size",
                  "the write barrier copies storage_size bytes from source to destination",
                  "memmove and memcpy follow the C standard (modelled by whole-array copies with readability and writability asserted)",
                  "rti_throw records the error and returns; element sizes other than 1, 8 and 24 bytes are not examined",
                  "vectors hold at most 2^32 elements, so that length * element_size does not overflow",
                  "in the push units assert() is disabled because the verifier cannot order a pointer against NULL"])

# ---------------------------------------------------------------- strings
STR_OPS = ["NEW", "CONCAT", "POOL", "COMPARE", "COMPAREN"]
STR_FN = {"NEW": ["string_new", "string_to_vec", "vec_to_string", "rt_string_length"], "CONCAT": ["string_concat"],
          "POOL": ["string_new_with_pool"],
          "COMPARE": ["string_ee", "string_ne", "string_lt", "string_le", "string_gt", "string_ge"]}
STR_FN["COMPAREN"] = STR_FN["COMPARE"]
STR = []
for op, n in [("NEW", 0), ("CONCAT", 0), ("COMPAREN", 0)] + [("POOL", k) for k in (0, 1, 2, 3)] + [("COMPARE", k) for k in range(16)]:
    STR.append(unit("str_%s_%d" % (op.lower(), n), "rt_string.c",
                    defines=RT_DEF + ["OP_%s=%d" % (o, i + 1) for i, o in enumerate(STR_OPS)] + ["VF_OP=OP_" + op, "VF_N=%d" % n],
                    trace_defines=["VF_MAXLEN=4"], include=["$VERIF/lib/refuse"], include_first=True, unwind=60,
                    functions=STR_FN[op],
                    **({"bounded": "strings of at most 3 bytes"} if op in ("POOL", "COMPARE") else {})))
prop("C08", STR,
     note="Triples on the real functions of string.c: creation, concatenation and the six comparisons for symbolic lengths up to 2^32 bytes, contents checked at an arbitrary witness byte or an arbitrary position of the first difference; comparison of every pair of strings of at most 3 bytes and the literal pool (at most 3 bytes, one existing entry) are bounded and counted apart.",
     assumptions=["rti_gc_malloc returns fresh zeroed memory of the requested size",
                  "memmove, memcpy and memcmp follow the C standard",
                  "the literal pool's hash map is an exact map from NUL-terminated keys (third-party sc_map)",
                  "the pool lock is taken around the pool access (not checked)"])

# ---------------------------------------------------------------- maps and sets
MS = []
MS_OPS = {"contains": 0, "access": 1, "assign": 2, "grow": 3, "delete": 4, "new": 5, "zero": 6}
MS_N = ["OP_%s_N=%d" % (k.upper(), v) for k, v in MS_OPS.items()]
for is_set in (0, 1):
    for op, n in MS_OPS.items():
        if is_set and op == "access":
            continue
        cap = 4
        full = cap * 3 // 4
        for ln in {"assign": range(full), "grow": [full]}.get(op, [None]):
            kind = "set" if is_set else "map"
            MS.append(unit("%s_%s%s" % (kind, op, "" if ln is None else "_%d" % ln), "rt_map.c",
                           defines=RT_DEF + MS_N + ["VF_SET=%d" % is_set, "VF_OP=%d" % n, "VF_CAP=%d" % cap,
                                                    "VF_KS=%d" % (2 if is_set else 8), "VF_VS=3"] +
                           ([] if ln is None else ["VF_LEN=%d" % ln]) +
                           (["VF_HMASK=15"] if op == "zero" else []),
                           include=["$VERIF/lib/refuse"], include_first=True,
                           unwind=210 if op in ("new", "zero") else 2 * cap * 8 + 2,
                           unwindset=["map_grow:2", "rt_map_assign:3"] if op == "grow" and not is_set else [],
                           bounded="capacity %d before the operation" % cap,
                           functions=["rt_%s_%s" % (kind, op), "find_hash_slot"]))
for nm, d in [("dir%d" % k, ["VF_STR=0", "VF_IND=0", "VF_KS=%d" % k]) for k in (1, 2, 4, 8)] + \
        [("ind%d" % k, ["VF_STR=0", "VF_IND=1", "VF_KS=%d" % k]) for k in (3, 12)] + \
        [("str%d%d" % (a, b), ["VF_STR=1", "VF_IND=0", "VF_L1=%d" % a, "VF_L2=%d" % b])
         for a, b in ((0, 0), (0, 1), (2, 2), (3, 2))]:
    MS.append(unit("map_key_" + nm, "rt_mapkey.c", defines=RT_DEF + d, include=["$VERIF/lib/refuse"], include_first=True,
                   unwind=170, bounded="keys of the listed sizes", functions=["rt_map_assign", "rt_map_contains", "key_hash", "key_equal"]))
prop("C07", MS, level="other",
     note="Data-structure invariant plus one triple per operation: from every table state that satisfies the representation invariant (any contents, any deletion marks, any hash function) each operation on the real map.c/set.c/hash.h code re-establishes the invariant and performs the abstract update for an arbitrary witness key, which covers histories of every length by induction. The table capacity before the operation is bounded to 4 slots (8 after growth) over a universe of 8 keys, so the result is bounded, not a proof for every capacity; key identity is checked with the real hash and comparison for the listed key sizes.",
     technique="CBMC pre/postcondition triples with a representation invariant on the real functions, every obligation discharged by bit-precise SAT; bounded table capacity",
     assumptions=["rti_gc_malloc returns fresh zeroed memory; the write barrier is a copy; rt_find_rtype returns the descriptor of the hash it is given",
                  "capacities other than 4 and 8 are not examined; key universe of 8",
                  "keys are compared bytewise: struct keys with padding are equal only when the padding is equal too"])

# ---------------------------------------------------------------- PE/COFF relocations
COFF_T = {"absolute": 0, "addr64": 1, "addr32": 2, "addr32nb": 3, "rel32": 4, "rel32_1": 5, "rel32_2": 6, "rel32_3": 7,
          "rel32_4": 8, "rel32_5": 9, "section": 10, "secrel": 11, "unknown": 99}
COFF = []
for nm, t in COFF_T.items():
    for ab in ((0, 1) if nm in ("addr64", "addr32", "addr32nb", "rel32") else (0,)):
        COFF.append(unit("coff_%s%s" % (nm, "_abs" if ab else ""), "coff_reloc.c", unwind=110,
                         defines=["VF_TYPE=%d" % t, "VF_ABS=%d" % ab],
                         functions=["ld_coff_apply_one_relocation", "ld_coff_symbol_address", "ld_coff_add_signed_u64",
                                    "ld_coff_push_base_relocation", "ld_coff_write_u64", "ld_coff_write_u32", "ld_coff_write_u16"]))
prop("C13", COFF,
     note="One triple per AMD64 COFF relocation type on ld_coff_apply_one_relocation and everything it calls in the writer, with image base, section layout, symbol kind and value, addend bytes and field position symbolic, for sections of any size: only the field and the 8 bytes on either side exist as memory, so any other access fails an obligation; the expected value is computed in 128-bit integers from the PE/COFF specification.",
     assumptions=["the layout handed over by the section placement lies inside a 4 GiB image (sum of RVA, offset and size below 2^32) and the image base is at most 2^62",
                  "ld_coff_get_global finds the symbol's global; ld_coff_grow does not fail; message formatting is skipped",
                  "references of type SECTION, SECREL and REL32_1..5 to absolute symbols are not examined"])

# ---------------------------------------------------------------- page allocator
ALLOC = []
for op, d, fs, kw in [("class", ["VF_OP=1"], ["calc_sizeclass", "make_spanclass", "take_pages_count"], {}),
                      ("chunk", ["VF_OP=2"], ["chunk_summarize"], {}),
                      ("chunk_lemma", ["VF_OP=2", "VF_LEMMA=1"], [], {}),
                      ("set", ["VF_OP=4", "VF_VALUE=1"], ["bitmap_batch_set"], {}),
                      ("clear", ["VF_OP=4", "VF_VALUE=0"], ["bitmap_batch_clear"], {})] + \
                     [("chunk_max%d" % i, ["VF_OP=2", "VF_MAXRUN=%d" % i], ["chunk_summarize"],
                       {"bounded": "one word of the chunk arbitrary, the others all free or all used"}) for i in (0, 3, 7)] + \
                     [("merge%d" % l, ["VF_OP=3", "VF_LEVEL=%d" % l], ["merge_summarize"], {}) for l in range(4)]:
    ALLOC.append(unit("alloc_" + op, "alloc_pages.c", defines=d, functions=fs, unwind=70,
                      include=["$VERIF/lib/refuse"], include_first=True, **kw))

prop("C09", ALLOC,
     note="Triples on the real functions of runtime/allocator.c and utils/bitmap.h: size class selection for every small request, setting and clearing any range of a 512-page bitmap, the start and end of a chunk summary for every bitmap, and merging of eight summaries at each of the four upper levels. The longest run of a chunk is checked for one arbitrary word with the others all free or all used (bounded). The walk over the summary tree that picks a run of pages is not covered.",
     assumptions=["child summaries are consistent: start and end do not exceed max, and a used page separates start from end unless the child is entirely free",
                  "the Linux page size of 8 KiB; assertions of the code count as failures"])

# ---------------------------------------------------------------- Mach-O relocations
MACHO_T = ["unsigned", "subtractor", "branch26", "page21", "pageoff12", "got_load_page21", "got_load_pageoff12", "pointer_to_got",
           "tlvp_load_page21", "tlvp_load_pageoff12"]
MACHO_F = ["ld_apply_relocations", "ld_relocation_target", "ld_local_symbol_address", "ld_relocation_value",
           "ld_relocation_difference", "ld_patch_adrp", "ld_patch_branch26", "ld_patch_pageoff", "ld_pageoff_shift",
           "ld_add_signed_u64", "ld_macho_got_address", "ld_macho_tlv_ptr_address", "ld_add_rebase"]
MACHO = []
for t, nm in enumerate(MACHO_T):
    # (suffix, log2 of the field width, 1 = section-relative target / 2 = explicit addend / 3 = through a pointer slot)
    vs = [("32", 2, 0), ("64", 3, 0), ("32_section", 2, 1), ("64_section", 3, 1)] if t < 2 else [("", 2, 0)]
    if t in (3, 4):
        vs.append(("_addend", 2, 2))
    if t in (8, 9):
        vs.append(("_pointer", 2, 3))
    for sfx, ln, var in vs:
        MACHO.append(unit("macho_" + nm + sfx, "macho_reloc.c", unwind=26,
                          defines=["VF_TYPE=%d" % t, "VF_LENGTH=%d" % ln, "VF_VAR=%d" % var],
                          bounded="one relocation, or one ADDEND/SUBTRACTOR pair, per section", functions=MACHO_F))
prop("C14", MACHO, level="other",
     technique="CBMC pre/postcondition triples on the real relocation function, every obligation discharged by bit-precise SAT; bounded to one relocation per section",
     note="One triple per ARM64 Mach-O relocation type on ld_apply_relocations with a single relocation (or ADDEND/SUBTRACTOR pair): section layout, target and GOT addresses, addends and instruction bytes symbolic, only the field and 8 bytes on either side exist as memory. The function loops over all relocations of all sections; the loop is run for one relocation only, so the result is labelled bounded.",
     assumptions=["the earlier scan accepted the relocation: width, PC-relative and external flags as the type requires, and an instruction of the right class (ADD without shift)",
                  "addresses, section offsets and sizes are below 2^60; targets are local symbols or sections (imports, stubs and branch islands are not examined)",
                  "fixup lists can always grow; message formatting is skipped"])

NOT_APPLICABLE = {
    "C19": "Progress and mutual exclusion under every thread interleaving are not expressible as sequential function contracts; the verifier here has no shared-memory concurrency logic, and the scheduler depends on assembly context switches, libuv and OS threads.",
    "C20": "Soundness of the whole language is a property of all programs run through inference, lowering, register allocation and three back ends; contracts on single C functions cannot state it without a formal semantics of the language, which does not exist here. The parts with a local specification are claimed separately (encoders, relocations, layout, runtime containers).",
}
