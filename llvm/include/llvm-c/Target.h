/* Stand-in for llvm-c/Target.h: just what llvm-sys' wrappers/target.c needs, for the X86 target only. */
#ifndef VP_LLVM_C_TARGET_H
#define VP_LLVM_C_TARGET_H
typedef int LLVMBool;
void LLVMInitializeX86TargetInfo(void);
void LLVMInitializeX86Target(void);
void LLVMInitializeX86TargetMC(void);
void LLVMInitializeX86AsmPrinter(void);
void LLVMInitializeX86AsmParser(void);
void LLVMInitializeX86Disassembler(void);
static inline void LLVMInitializeAllTargetInfos(void) { LLVMInitializeX86TargetInfo(); }
static inline void LLVMInitializeAllTargets(void) { LLVMInitializeX86Target(); }
static inline void LLVMInitializeAllTargetMCs(void) { LLVMInitializeX86TargetMC(); }
static inline void LLVMInitializeAllAsmPrinters(void) { LLVMInitializeX86AsmPrinter(); }
static inline void LLVMInitializeAllAsmParsers(void) { LLVMInitializeX86AsmParser(); }
static inline void LLVMInitializeAllDisassemblers(void) { LLVMInitializeX86Disassembler(); }
static inline LLVMBool LLVMInitializeNativeTarget(void) {
  LLVMInitializeX86TargetInfo(); LLVMInitializeX86Target(); LLVMInitializeX86TargetMC(); return 0;
}
static inline LLVMBool LLVMInitializeNativeAsmParser(void) { LLVMInitializeX86AsmParser(); return 0; }
static inline LLVMBool LLVMInitializeNativeAsmPrinter(void) { LLVMInitializeX86AsmPrinter(); return 0; }
static inline LLVMBool LLVMInitializeNativeDisassembler(void) { LLVMInitializeX86Disassembler(); return 0; }
#endif
