// Stand-in for crates/revmc-llvm/cpp/lib.cpp, which needs the C++ headers of LLVM 22 (not installed here).
// Same functions, written against the C API and a few exported C++ symbols of the installed LLVM 22.1 library.
#include <atomic>
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <dlfcn.h>
#include <unistd.h>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <vector>
#include <cstring>

extern "C" {
typedef struct LLVMOpaqueError *LLVMErrorRef;
typedef void *Ref;
unsigned LLVMGetEnumAttributeKindForName(const char *Name, size_t SLen);
LLVMErrorRef LLVMOrcLLJITLookup(Ref J, uint64_t *Result, const char *Name);
Ref LLVMOrcLLJITGetExecutionSession(Ref J);
Ref LLVMOrcLLJITMangleAndIntern(Ref J, const char *Name);
typedef struct { Ref Name; int Flags; } CLookupSetElement;
typedef struct { Ref JD; int Flags; } CJITDylibSearchOrderElement;
typedef struct { uint8_t GenericFlags; uint8_t TargetFlags; } CSymFlags;
typedef struct { uint64_t Address; CSymFlags Flags; } CEvaluatedSymbol;
typedef struct { Ref Name; CEvaluatedSymbol Sym; } CSymbolMapPair;
typedef void (*LookupHandler)(LLVMErrorRef Err, CSymbolMapPair *Result, size_t Num, void *Ctx);
void LLVMOrcExecutionSessionLookup(Ref ES, int Kind, CJITDylibSearchOrderElement *Order, size_t OrderSize,
                                   CLookupSetElement *Syms, size_t SymsSize, LookupHandler Handler, void *Ctx);
LLVMErrorRef LLVMCreateStringError(const char *ErrMsg);
}

namespace llvm {
class LLVMContext;
struct FakeAPInt { uint64_t Val; unsigned BitWidth; };
struct FakeRange { FakeAPInt Lower, Upper; };
class ConstantRange : public FakeRange {};
template <class T> struct ArrayRef { const T *Data; size_t Length; };
class Attribute {
public:
  void *P;
  enum AttrKind : int { Dummy = 0 };
  static Attribute get(LLVMContext &C, AttrKind K, ArrayRef<ConstantRange> V);
};
// llvm::Error: one pointer, with the "checked" bit in the lowest bit of release builds cleared.
class Error {
public:
  void *P;
  ~Error() {}
};
template <class T> class IntrusiveRefCntPtr {
public:
  T *P = nullptr;
  explicit IntrusiveRefCntPtr(T *p) : P(p) { if (P) P->Retain(); }
  IntrusiveRefCntPtr(const IntrusiveRefCntPtr &o) : P(o.P) { if (P) P->Retain(); }
  IntrusiveRefCntPtr(IntrusiveRefCntPtr &&o) noexcept : P(o.P) { o.P = nullptr; }
  ~IntrusiveRefCntPtr() { if (P) P->Release(); }
};
namespace orc {
enum class JITDylibLookupFlags { MatchExportedSymbolsOnly, MatchAllSymbols };
class JITDylib {
public:
  std::atomic<int> RefCount;
  ~JITDylib();
  void Retain() { RefCount.fetch_add(1); }
  void Release() {
    if (RefCount.fetch_sub(1) == 1) { this->~JITDylib(); ::operator delete((void *)this); }
  }
  void addToLinkOrder(JITDylib &JD, JITDylibLookupFlags F);
};
class ExecutionSession {
public:
  Error removeJITDylibs(std::vector<IntrusiveRefCntPtr<JITDylib>> JDs);
};
} // namespace orc
} // namespace llvm
using namespace llvm;

// The default compiler of LLJIT is one TargetMachine for all: compilations (which run inside lookups) take turns.
static std::recursive_mutex JitLock;

extern "C" Ref revmc_llvm_create_initializes_attr(Ref C, int64_t Lower, int64_t Upper) {
  static const unsigned Kind = LLVMGetEnumAttributeKindForName("initializes", 11);
  ConstantRange CR;
  CR.Lower = {(uint64_t)Lower, 64};
  CR.Upper = {(uint64_t)Upper, 64};
  return Attribute::get(*(LLVMContext *)C, (Attribute::AttrKind)Kind, ArrayRef<ConstantRange>{&CR, 1}).P;
}

extern "C" void revmc_llvm_jit_dylib_add_to_link_order(Ref JD, Ref Other) {
  ((orc::JITDylib *)JD)->addToLinkOrder(*(orc::JITDylib *)Other, orc::JITDylibLookupFlags::MatchExportedSymbolsOnly);
}

extern "C" void revmc_llvm_lljit_builder_set_concurrent_compiler(Ref) {}

// Schedules: a thread may be held up before it enters the JIT (VP_PAUSE or vp_set_pause: up to that many microseconds).
static std::atomic<unsigned> PauseUs{getenv("VP_PAUSE") ? (unsigned)atoi(getenv("VP_PAUSE")) : 0u}, PauseSeed{1};
extern "C" void vp_set_pause(unsigned Us) { PauseUs = Us; }
static void pausePoint() {
  unsigned Us = PauseUs.load(std::memory_order_relaxed);
  if (!Us) return;
  unsigned X = PauseSeed.fetch_add(0x9e3779b9u) + (unsigned)(uintptr_t)&X;
  X ^= X >> 15; X *= 0x2c1b3c6du; X ^= X >> 12; X *= 0x297a2d39u; X ^= X >> 15;
  if (X & 1) usleep((X >> 1) % Us);
}

struct LookupOut { LLVMErrorRef Err; uint64_t Addr; bool Done; };
static void onLookup(LLVMErrorRef Err, CSymbolMapPair *Result, size_t Num, void *Ctx) {
  auto *O = (LookupOut *)Ctx;
  O->Done = true;
  O->Err = Err;
  if (!Err && Num == 1) O->Addr = Result[0].Sym.Address;
}

extern "C" LLVMErrorRef revmc_llvm_lljit_lookup_in(Ref J, Ref JD, uint64_t *Result, const char *Name) {
  pausePoint();
  std::lock_guard<std::recursive_mutex> G(JitLock);
  LookupOut O{nullptr, 0, false};
  CJITDylibSearchOrderElement Order{JD, /* MatchAllSymbols */ 1};
  CLookupSetElement Sym{LLVMOrcLLJITMangleAndIntern(J, Name), /* RequiredSymbol */ 0};
  LLVMOrcExecutionSessionLookup(LLVMOrcLLJITGetExecutionSession(J), /* Static */ 0, &Order, 1, &Sym, 1, onLookup, &O);
  if (!O.Done) abort();
  *Result = O.Addr;
  return O.Err;
}

// Live JIT memory: the original counts section sizes in a JITLink plugin, this counts modules and objects added under
// a resource tracker until the tracker or its dylib is removed, at a fixed size each.
static constexpr size_t ModuleCode = 4096, ModuleData = 512;
struct Live { Ref JD; size_t Modules; };
static std::recursive_mutex LiveLock;
static std::map<Ref, Live> LiveByTracker;
static std::map<Ref, size_t> LiveByDylib; // left behind by trackers released without being removed
static std::atomic<size_t> *CodeBytes, *DataBytes;
static void account(size_t N, bool Add) {
  if (!CodeBytes || !N) return;
  if (Add) { CodeBytes->fetch_add(N * ModuleCode); DataBytes->fetch_add(N * ModuleData); }
  else { CodeBytes->fetch_sub(N * ModuleCode); DataBytes->fetch_sub(N * ModuleData); }
}
static void forgetDylib(Ref JD) {
  std::lock_guard<std::recursive_mutex> G(LiveLock);
  for (auto &KV : LiveByTracker)
    if (KV.second.JD == JD) { account(KV.second.Modules, false); KV.second.Modules = 0; }
  auto It = LiveByDylib.find(JD);
  if (It != LiveByDylib.end()) { account(It->second, false); LiveByDylib.erase(It); }
}
template <class F> static F next(const char *Name) {
  void *P = dlsym(RTLD_NEXT, Name);
  if (!P) abort();
  return (F)P;
}
// A program that does not export the builtins (only ahead-of-time code needs that): VP_HIDE_BUILTINS=1 keeps the
// JIT from finding them among the symbols of the process.
extern "C" const char *LLVMOrcSymbolStringPoolEntryStr(Ref S);
static int notBuiltin(void *, Ref S) { return strncmp(LLVMOrcSymbolStringPoolEntryStr(S), "__revmc_builtin_", 16) != 0; }
extern "C" LLVMErrorRef LLVMOrcCreateDynamicLibrarySearchGeneratorForProcess(Ref *Result, char Prefix, int (*Filter)(void *, Ref), void *Ctx) {
  static auto Real = next<LLVMErrorRef (*)(Ref *, char, int (*)(void *, Ref), void *)>("LLVMOrcCreateDynamicLibrarySearchGeneratorForProcess");
  if (!Filter && getenv("VP_HIDE_BUILTINS")) Filter = notBuiltin;
  return Real(Result, Prefix, Filter, Ctx);
}
extern "C" LLVMErrorRef LLVMOrcJITDylibDefine(Ref JD, Ref MU) {
  static auto Real = next<LLVMErrorRef (*)(Ref, Ref)>("LLVMOrcJITDylibDefine");
  pausePoint();
  return Real(JD, MU);
}
extern "C" Ref LLVMOrcJITDylibCreateResourceTracker(Ref JD) {
  static auto Real = next<Ref (*)(Ref)>("LLVMOrcJITDylibCreateResourceTracker");
  Ref RT = Real(JD);
  std::lock_guard<std::recursive_mutex> G(LiveLock);
  LiveByTracker[RT] = {JD, 0};
  return RT;
}
static void added(Ref RT) {
  std::lock_guard<std::recursive_mutex> G(LiveLock);
  auto It = LiveByTracker.find(RT);
  if (It != LiveByTracker.end()) { It->second.Modules++; account(1, true); }
}
extern "C" LLVMErrorRef LLVMOrcLLJITAddLLVMIRModuleWithRT(Ref J, Ref RT, Ref TSM) {
  static auto Real = next<LLVMErrorRef (*)(Ref, Ref, Ref)>("LLVMOrcLLJITAddLLVMIRModuleWithRT");
  pausePoint();
  LLVMErrorRef E = Real(J, RT, TSM);
  if (!E) added(RT);
  return E;
}
extern "C" LLVMErrorRef LLVMOrcLLJITAddObjectFileWithRT(Ref J, Ref RT, Ref Buf) {
  static auto Real = next<LLVMErrorRef (*)(Ref, Ref, Ref)>("LLVMOrcLLJITAddObjectFileWithRT");
  pausePoint();
  LLVMErrorRef E = Real(J, RT, Buf);
  if (!E) added(RT);
  return E;
}
extern "C" LLVMErrorRef LLVMOrcResourceTrackerRemove(Ref RT) {
  static auto Real = next<LLVMErrorRef (*)(Ref)>("LLVMOrcResourceTrackerRemove");
  pausePoint();
  {
    std::lock_guard<std::recursive_mutex> G(LiveLock);
    auto It = LiveByTracker.find(RT);
    if (It != LiveByTracker.end()) { account(It->second.Modules, false); It->second.Modules = 0; }
  }
  return Real(RT);
}
extern "C" void LLVMOrcReleaseResourceTracker(Ref RT) {
  static auto Real = next<void (*)(Ref)>("LLVMOrcReleaseResourceTracker");
  {
    std::lock_guard<std::recursive_mutex> G(LiveLock);
    auto It = LiveByTracker.find(RT);
    if (It != LiveByTracker.end()) {
      if (It->second.Modules) LiveByDylib[It->second.JD] += It->second.Modules;
      LiveByTracker.erase(It);
    }
  }
  Real(RT);
}
extern "C" LLVMErrorRef LLVMOrcJITDylibClear(Ref JD) {
  static auto Real = next<LLVMErrorRef (*)(Ref)>("LLVMOrcJITDylibClear");
  pausePoint();
  forgetDylib(JD);
  return Real(JD);
}
extern "C" LLVMErrorRef revmc_llvm_execution_session_remove_jit_dylib(Ref ES, Ref JD) {
  std::lock_guard<std::recursive_mutex> G(JitLock);
  forgetDylib(JD);
  std::vector<IntrusiveRefCntPtr<orc::JITDylib>> V;
  V.emplace_back((orc::JITDylib *)JD);
  Error E = ((orc::ExecutionSession *)ES)->removeJITDylibs(std::move(V));
  return (LLVMErrorRef)E.P;
}
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_memory_usage(Ref, std::atomic<size_t> *Code, std::atomic<size_t> *Data) {
  std::lock_guard<std::recursive_mutex> G(LiveLock);
  CodeBytes = Code;
  DataBytes = Data;
  return nullptr;
}
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_simple_perf(Ref) { return nullptr; }
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_perf_support(Ref) { return nullptr; }
extern "C" LLVMErrorRef revmc_llvm_lljit_enable_debug_support(Ref) { return nullptr; }
extern "C" void revmc_llvm_target_machine_set_opt_level(Ref, int) {}
extern "C" void revmc_llvm_set_dso_local(Ref, bool) {}
