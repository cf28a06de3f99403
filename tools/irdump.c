/*
 * irdump IN.bc KEEP OUT.json [nopass]
 * Loads an LLVM module, inlines every defined non-recursive function whose name is not listed in KEEP, promotes
 * locals to SSA, and writes the resulting program as JSON for the Python analyses. No code of the module is run.
 */
#include <llvm-c/Analysis.h>
#include <llvm-c/BitReader.h>
#include <llvm-c/Core.h>
#include <llvm-c/DebugInfo.h>
#include <llvm-c/Error.h>
#include <llvm-c/IRReader.h>
#include <llvm-c/Target.h>
#include <llvm-c/TargetMachine.h>
#include <llvm-c/Transforms/PassBuilder.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>

static FILE *out;
static LLVMTargetDataRef TD;

static void jstr(const char *s, size_t n) {
  fputc('"', out);
  for (size_t i = 0; i < n; i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') fprintf(out, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(out, "\\u%04x", c);
    else fputc(c, out);
  }
  fputc('"', out);
}
static void jcstr(const char *s) { jstr(s ? s : "", s ? strlen(s) : 0); }

/* ---- value numbering ---- */
typedef struct { LLVMValueRef v; int id; } ent;
static ent *tab; static size_t tabn, tabcap;
static size_t hp(LLVMValueRef v) { return ((uintptr_t)v >> 4) * 0x9E3779B97F4A7C15ULL; }
static void tinit(size_t n) { tabcap = 64; while (tabcap < n * 3) tabcap <<= 1; free(tab); tab = calloc(tabcap, sizeof(ent)); tabn = 0; }
static void tput(LLVMValueRef v, int id) { size_t i = hp(v) & (tabcap - 1); while (tab[i].v) i = (i + 1) & (tabcap - 1); tab[i].v = v; tab[i].id = id; }
static int tget(LLVMValueRef v) { size_t i = hp(v) & (tabcap - 1); while (tab[i].v) { if (tab[i].v == v) return tab[i].id; i = (i + 1) & (tabcap - 1); } return -1; }

static void jtype(LLVMTypeRef t) { char *s = LLVMPrintTypeToString(t); jcstr(s); LLVMDisposeMessage(s); }

static void gepinfo(LLVMValueRef g, bool ops);
static void operand(LLVMValueRef v);

static bool constoff(LLVMValueRef g, int64_t *off) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(g);
  int n = LLVMGetNumOperands(g); int64_t o = 0;
  for (int i = 1; i < n; i++) {
    LLVMValueRef ix = LLVMGetOperand(g, i);
    if (i == 1) {
      if (!LLVMIsAConstantInt(ix)) return false;
      o += LLVMConstIntGetSExtValue(ix) * (int64_t)LLVMABISizeOfType(TD, t);
    } else if (LLVMGetTypeKind(t) == LLVMStructTypeKind) {
      unsigned k = LLVMConstIntGetZExtValue(ix);
      o += LLVMOffsetOfElement(TD, t, k); t = LLVMStructGetTypeAtIndex(t, k);
    } else {
      t = LLVMGetElementType(t);
      if (!LLVMIsAConstantInt(ix)) return false;
      o += LLVMConstIntGetSExtValue(ix) * (int64_t)LLVMABISizeOfType(TD, t);
    }
  }
  *off = o; return true;
}

static void operand(LLVMValueRef v) {
  if (LLVMIsAConstantInt(v)) {
    unsigned w = LLVMGetIntTypeWidth(LLVMTypeOf(v));
    if (w <= 64) { fprintf(out, "[\"i\",%lld]", w == 1 ? (long long)LLVMConstIntGetZExtValue(v) : LLVMConstIntGetSExtValue(v)); return; }
  }
  if (LLVMIsAFunction(v) || LLVMIsAGlobalVariable(v)) { size_t l; const char *n = LLVMGetValueName2(v, &l); fprintf(out, "[\"g\","); jstr(n, l); fputc(']', out); return; }
  if (LLVMIsAConstantPointerNull(v)) { fprintf(out, "[\"n\"]"); return; }
  if (LLVMIsAUndefValue(v) || LLVMIsAPoisonValue(v)) { fprintf(out, "[\"u\"]"); return; }
  if (LLVMIsAArgument(v) || LLVMIsAInstruction(v)) { fprintf(out, "[\"v\",%d]", tget(v)); return; }
  if (LLVMIsABasicBlock(v)) { fprintf(out, "[\"b\",%d]", tget(v)); return; }
  if (LLVMIsAConstantExpr(v)) {
    LLVMOpcode op = LLVMGetConstOpcode(v);
    if (op == LLVMGetElementPtr) {
      int64_t off; LLVMValueRef b = LLVMGetOperand(v, 0);
      if (constoff(v, &off)) { fprintf(out, "[\"go\","); operand(b); fprintf(out, ",%lld]", (long long)off); return; }
    }
    if (op == LLVMPtrToInt || op == LLVMIntToPtr || op == LLVMBitCast) { operand(LLVMGetOperand(v, 0)); return; }
  }
  if (LLVMIsNull(v)) { fprintf(out, "[\"z\"]"); return; }
  char *s = LLVMPrintValueToString(v); fprintf(out, "[\"x\","); jcstr(s); fputc(']', out); LLVMDisposeMessage(s);
}

static void initializer(LLVMValueRef v) {
  size_t l;
  if (LLVMIsAConstantDataSequential(v) && LLVMIsConstantString(v)) { const char *s = LLVMGetAsString(v, &l); fprintf(out, "{\"s\":"); jstr(s, l); fputc('}', out); return; }
  if (LLVMIsNull(v)) { fprintf(out, "[\"z\"]"); return; }
  LLVMTypeKind k = LLVMGetTypeKind(LLVMTypeOf(v));
  if (LLVMIsAConstantStruct(v) || LLVMIsAConstantArray(v)) {
    fprintf(out, "{\"e\":[");
    int n = LLVMGetNumOperands(v);
    for (int i = 0; i < n; i++) { if (i) fputc(',', out); initializer(LLVMGetOperand(v, i)); }
    fprintf(out, "]}"); return;
  }
  if (k == LLVMArrayTypeKind && LLVMIsAConstantDataSequential(v)) {
    unsigned n = LLVMGetArrayLength(LLVMTypeOf(v));
    fprintf(out, "{\"e\":[");
    for (unsigned i = 0; i < n; i++) { if (i) fputc(',', out); initializer(LLVMGetAggregateElement(v, i)); }
    fprintf(out, "]}"); return;
  }
  operand(v);
}

static void gepinfo(LLVMValueRef g, bool ops) {
  LLVMTypeRef t = LLVMGetGEPSourceElementType(g);
  int n = LLVMGetNumOperands(g);
  int64_t off = 0; bool first = true; int fld = -1; const char *sn = NULL;
  fprintf(out, ",\"vi\":[");
  for (int i = 1; i < n; i++) {
    LLVMValueRef ix = LLVMGetOperand(g, i);
    if (i > 1 && LLVMGetTypeKind(t) == LLVMStructTypeKind) {
      unsigned k = LLVMConstIntGetZExtValue(ix);
      sn = LLVMGetStructName(t); fld = k;
      off += LLVMOffsetOfElement(TD, t, k); t = LLVMStructGetTypeAtIndex(t, k);
    } else {
      if (i > 1) t = LLVMGetElementType(t);
      int64_t sz = LLVMABISizeOfType(TD, t);
      if (LLVMIsAConstantInt(ix)) off += LLVMConstIntGetSExtValue(ix) * sz;
      else { if (!first) fputc(',', out); first = false; fputc('[', out); operand(ix); fprintf(out, ",%lld]", (long long)sz); }
    }
  }
  fprintf(out, "],\"off\":%lld,\"rt\":", (long long)off); jtype(t);
  fprintf(out, ",\"ety\":"); jtype(LLVMGetGEPSourceElementType(g));
  if (sn) { fprintf(out, ",\"st\":["); jcstr(sn); fprintf(out, ",%d]", fld); }
}

static const char *opname(LLVMOpcode o) {
  switch (o) {
    case LLVMRet: return "ret"; case LLVMBr: return "br"; case LLVMSwitch: return "switch"; case LLVMUnreachable: return "unreachable";
    case LLVMAdd: return "add"; case LLVMSub: return "sub"; case LLVMMul: return "mul"; case LLVMUDiv: return "udiv"; case LLVMSDiv: return "sdiv";
    case LLVMURem: return "urem"; case LLVMSRem: return "srem"; case LLVMShl: return "shl"; case LLVMLShr: return "lshr"; case LLVMAShr: return "ashr";
    case LLVMAnd: return "and"; case LLVMOr: return "or"; case LLVMXor: return "xor"; case LLVMAlloca: return "alloca"; case LLVMLoad: return "load";
    case LLVMStore: return "store"; case LLVMGetElementPtr: return "gep"; case LLVMTrunc: return "trunc"; case LLVMZExt: return "zext"; case LLVMSExt: return "sext";
    case LLVMPtrToInt: return "ptrtoint"; case LLVMIntToPtr: return "inttoptr"; case LLVMBitCast: return "bitcast"; case LLVMICmp: return "icmp"; case LLVMPHI: return "phi";
    case LLVMCall: return "call"; case LLVMSelect: return "select"; case LLVMExtractElement: return "extractelement"; case LLVMInsertElement: return "insertelement";
    case LLVMShuffleVector: return "shufflevector"; case LLVMExtractValue: return "extractvalue"; case LLVMInsertValue: return "insertvalue"; case LLVMFreeze: return "freeze";
    case LLVMFNeg: return "fneg"; case LLVMFAdd: return "fadd"; case LLVMFSub: return "fsub"; case LLVMFMul: return "fmul"; case LLVMFDiv: return "fdiv";
    case LLVMFCmp: return "fcmp"; case LLVMUIToFP: return "uitofp"; case LLVMSIToFP: return "sitofp"; case LLVMFPToUI: return "fptoui"; case LLVMFPToSI: return "fptosi";
    default: return "other";
  }
}
static const char *preds[] = { "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle" };

static void dumpinst(LLVMValueRef I) {
  LLVMOpcode op = LLVMGetInstructionOpcode(I);
  unsigned fl; const char *fn = NULL; unsigned line = LLVMGetDebugLocLine(I);
  fprintf(out, "{\"i\":%d,\"o\":\"%s\",\"t\":", tget(I), opname(op)); jtype(LLVMTypeOf(I));
  if (line) { fn = LLVMGetDebugLocFilename(I, &fl); fprintf(out, ",\"l\":%u,\"f\":", line); jstr(fn ? fn : "", fn ? fl : 0); }
  int n = LLVMGetNumOperands(I);
  if (op == LLVMCall) {
    LLVMValueRef c = LLVMGetCalledValue(I);
    unsigned na = LLVMGetNumArgOperands(I);
    fprintf(out, ",\"c\":"); operand(c);
    fprintf(out, ",\"fty\":"); jtype(LLVMGetCalledFunctionType(I));
    fprintf(out, ",\"a\":[");
    for (unsigned i = 0; i < na; i++) { if (i) fputc(',', out); LLVMValueRef a = LLVMGetOperand(I, i); if (LLVMGetTypeKind(LLVMTypeOf(a)) == LLVMMetadataTypeKind) fprintf(out, "[\"m\"]"); else operand(a); }
    fputc(']', out);
  } else if (op == LLVMPHI) {
    unsigned k = LLVMCountIncoming(I);
    fprintf(out, ",\"in\":[");
    for (unsigned i = 0; i < k; i++) { if (i) fputc(',', out); fputc('[', out); operand(LLVMGetIncomingValue(I, i)); fprintf(out, ",%d]", tget(LLVMBasicBlockAsValue(LLVMGetIncomingBlock(I, i)))); }
    fputc(']', out);
  } else if (op == LLVMBr) {
    if (LLVMIsConditional(I)) { fprintf(out, ",\"a\":["); operand(LLVMGetCondition(I)); fputc(']', out); }
    fprintf(out, ",\"s\":[");
    for (unsigned i = 0; i < LLVMGetNumSuccessors(I); i++) { if (i) fputc(',', out); fprintf(out, "%d", tget(LLVMBasicBlockAsValue(LLVMGetSuccessor(I, i)))); }
    fputc(']', out);
  } else if (op == LLVMSwitch) {
    fprintf(out, ",\"a\":["); operand(LLVMGetOperand(I, 0)); fprintf(out, "],\"d\":%d,\"cs\":[", tget(LLVMBasicBlockAsValue(LLVMGetSwitchDefaultDest(I))));
    for (int i = 2; i + 1 < n; i += 2) { if (i > 2) fputc(',', out); fprintf(out, "[%lld,%d]", LLVMConstIntGetSExtValue(LLVMGetOperand(I, i)), tget(LLVMGetOperand(I, i + 1))); }
    fputc(']', out);
  } else if (op == LLVMAlloca) {
    fprintf(out, ",\"ty\":"); LLVMTypeRef at = LLVMGetAllocatedType(I); jtype(at);
    fprintf(out, ",\"sz\":%llu,\"a\":[", (unsigned long long)LLVMABISizeOfType(TD, at)); operand(LLVMGetOperand(I, 0)); fputc(']', out);
  } else {
    fprintf(out, ",\"a\":[");
    for (int i = 0; i < n; i++) { if (i) fputc(',', out); operand(LLVMGetOperand(I, i)); }
    fputc(']', out);
    if (op == LLVMGetElementPtr) gepinfo(I, true);
    if (op == LLVMStore) fprintf(out, ",\"sz\":%llu", (unsigned long long)LLVMStoreSizeOfType(TD, LLVMTypeOf(LLVMGetOperand(I, 0))));
    if (op == LLVMICmp) fprintf(out, ",\"p\":\"%s\"", preds[LLVMGetICmpPredicate(I) - LLVMIntEQ]);
    if (op == LLVMTrunc || op == LLVMZExt || op == LLVMSExt) { fprintf(out, ",\"ft\":"); jtype(LLVMTypeOf(LLVMGetOperand(I, 0))); }
  }
  size_t nl; const char *nm = LLVMGetValueName2(I, &nl);
  if (nl) { fprintf(out, ",\"n\":"); jstr(nm, nl); }
  fputc('}', out);
}

/* ---- selective inlining ---- */
static char **keep; static size_t nkeep;
static bool kept(const char *n) { for (size_t i = 0; i < nkeep; i++) if (!strcmp(keep[i], n)) return true; return false; }
#define MAXF 4096
static LLVMValueRef fs[MAXF]; static int nf; static unsigned char *reach;
static int fidx(LLVMValueRef f) { for (int i = 0; i < nf; i++) if (fs[i] == f) return i; return -1; }

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  LLVMContextRef C = LLVMGetGlobalContext();
  LLVMMemoryBufferRef mb; char *msg; LLVMModuleRef M;
  if (LLVMCreateMemoryBufferWithContentsOfFile(argv[1], &mb, &msg)) { fprintf(stderr, "%s\n", msg); return 2; }
  if (LLVMParseIRInContext(C, mb, &M, &msg)) { fprintf(stderr, "%s\n", msg); return 2; }
  LLVMInitializeNativeTarget();
  FILE *k = fopen(argv[2], "r"); char line[512];
  if (!k) return 2;
  while (fgets(line, sizeof line, k)) { line[strcspn(line, "\n")] = 0; if (!*line) continue; keep = realloc(keep, sizeof(char *) * (nkeep + 1)); keep[nkeep++] = strdup(line); }
  fclose(k);
  bool doinline = !(argc > 4 && !strcmp(argv[4], "noinline"));
  unsigned kAI = LLVMGetEnumAttributeKindForName("alwaysinline", 12), kNI = LLVMGetEnumAttributeKindForName("noinline", 8), kON = LLVMGetEnumAttributeKindForName("optnone", 7);
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) if (LLVMCountBasicBlocks(f) && nf < MAXF) fs[nf++] = f;
  reach = calloc((size_t)nf * nf, 1);
  int *ncall = calloc(nf, sizeof(int)), *taken = calloc(nf, sizeof(int));
  for (int i = 0; i < nf; i++)
    for (LLVMUseRef u = LLVMGetFirstUse(fs[i]); u; u = LLVMGetNextUse(u)) {
      LLVMValueRef U = LLVMGetUser(u);
      if (LLVMIsACallInst(U) && LLVMGetCalledValue(U) == fs[i]) ncall[i]++; else taken[i]++;
      if (LLVMIsACallInst(U)) for (unsigned a = 0; a < LLVMGetNumArgOperands(U); a++) if (LLVMGetOperand(U, a) == fs[i]) { taken[i]++; break; }
    }
  for (int i = 0; i < nf; i++)
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(fs[i]); b; b = LLVMGetNextBasicBlock(b))
      for (LLVMValueRef I = LLVMGetFirstInstruction(b); I; I = LLVMGetNextInstruction(I))
        if (LLVMIsACallInst(I)) { int j = fidx(LLVMGetCalledValue(I)); if (j >= 0 && !kept(LLVMGetValueName(fs[j]))) reach[i * nf + j] = 1; }
  for (int m = 0; m < nf; m++) for (int i = 0; i < nf; i++) if (reach[i * nf + m]) for (int j = 0; j < nf; j++) if (reach[m * nf + j]) reach[i * nf + j] = 1;
  for (int i = 0; i < nf; i++) {
    const char *n = LLVMGetValueName(fs[i]);
    LLVMRemoveEnumAttributeAtIndex(fs[i], LLVMAttributeFunctionIndex, kON);
    LLVMRemoveEnumAttributeAtIndex(fs[i], LLVMAttributeFunctionIndex, kAI);
    LLVMRemoveEnumAttributeAtIndex(fs[i], LLVMAttributeFunctionIndex, kNI);
    bool inl = doinline && !kept(n) && !reach[i * nf + i];
    LLVMAddAttributeAtIndex(fs[i], LLVMAttributeFunctionIndex, LLVMCreateEnumAttribute(C, inl ? kAI : kNI, 0));
    /* keep the body of inline functions from headers */
    if (LLVMGetLinkage(fs[i]) == LLVMAvailableExternallyLinkage) LLVMSetLinkage(fs[i], LLVMLinkOnceODRLinkage);
  }
  char *triple = LLVMGetDefaultTargetTriple(); LLVMTargetRef T;
  if (LLVMGetTargetFromTriple(triple, &T, &msg)) { fprintf(stderr, "%s\n", msg); return 2; }
  LLVMTargetMachineRef TM = LLVMCreateTargetMachine(T, triple, "generic", "", LLVMCodeGenLevelNone, LLVMRelocDefault, LLVMCodeModelDefault);
  LLVMPassBuilderOptionsRef PO = LLVMCreatePassBuilderOptions();
  LLVMErrorRef e = LLVMRunPasses(M, doinline ? "always-inline,function(sroa,mem2reg)" : "function(sroa,mem2reg)", TM, PO);
  if (e) { fprintf(stderr, "%s\n", LLVMGetErrorMessage(e)); return 2; }
  TD = LLVMGetModuleDataLayout(M);
  out = fopen(argv[3], "w"); if (!out) return 2;
  fprintf(out, "{\"globals\":{");
  bool first = true; size_t l;
  for (LLVMValueRef g = LLVMGetFirstGlobal(M); g; g = LLVMGetNextGlobal(g)) {
    const char *n = LLVMGetValueName2(g, &l);
    if (!first) fputc(',', out); first = false;
    jstr(n, l); fprintf(out, ":{\"sz\":%llu,\"ty\":", LLVMGetTypeKind(LLVMGlobalGetValueType(g)) == LLVMStructTypeKind && LLVMIsOpaqueStruct(LLVMGlobalGetValueType(g)) ? 0ULL : (unsigned long long)LLVMABISizeOfType(TD, LLVMGlobalGetValueType(g)));
    jtype(LLVMGlobalGetValueType(g));
    fprintf(out, ",\"const\":%d,\"def\":%d,\"local\":%d", LLVMIsGlobalConstant(g), LLVMGetInitializer(g) != NULL, LLVMGetLinkage(g) == LLVMInternalLinkage || LLVMGetLinkage(g) == LLVMPrivateLinkage);
    if (LLVMGetInitializer(g)) { fprintf(out, ",\"init\":"); initializer(LLVMGetInitializer(g)); }
    fputc('}', out);
  }
  fprintf(out, "},\n\"functions\":{"); first = true;
  for (LLVMValueRef f = LLVMGetFirstFunction(M); f; f = LLVMGetNextFunction(f)) {
    const char *n = LLVMGetValueName2(f, &l);
    if (!first) fprintf(out, ",\n"); first = false;
    jstr(n, l);
    fprintf(out, ":{\"ty\":"); jtype(LLVMGlobalGetValueType(f));
    fprintf(out, ",\"local\":%d,\"def\":%d", LLVMGetLinkage(f) == LLVMInternalLinkage || LLVMGetLinkage(f) == LLVMLinkOnceODRLinkage, LLVMCountBasicBlocks(f) > 0);
    LLVMMetadataRef sp = LLVMGetSubprogram(f);
    if (sp) { unsigned fl; fprintf(out, ",\"l\":%u,\"f\":", LLVMDISubprogramGetLine(sp)); LLVMMetadataRef fi = LLVMDIScopeGetFile(sp); const char *fn = fi ? LLVMDIFileGetFilename(fi, &fl) : NULL; jstr(fn ? fn : "", fn ? fl : 0); }
    { int fx = fidx(f); if (fx >= 0) fprintf(out, ",\"ncall\":%d,\"taken\":%d,\"rec\":%d", ncall[fx], taken[fx], reach[fx * nf + fx]); }
    unsigned np = LLVMCountParams(f); int id = 0; size_t tot = np + 8;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) { tot++; for (LLVMValueRef I = LLVMGetFirstInstruction(b); I; I = LLVMGetNextInstruction(I)) tot++; }
    tinit(tot);
    fprintf(out, ",\"params\":[");
    for (unsigned i = 0; i < np; i++) { LLVMValueRef p = LLVMGetParam(f, i); if (i) fputc(',', out); const char *pn = LLVMGetValueName2(p, &l); fprintf(out, "[%d,", id); jstr(pn, l); fputc(',', out); jtype(LLVMTypeOf(p)); fputc(']', out); tput(p, id++); }
    int bid = 0;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) { tput(LLVMBasicBlockAsValue(b), bid++); for (LLVMValueRef I = LLVMGetFirstInstruction(b); I; I = LLVMGetNextInstruction(I)) tput(I, id++); }
    fprintf(out, "],\"blocks\":[");
    bool fb = true;
    for (LLVMBasicBlockRef b = LLVMGetFirstBasicBlock(f); b; b = LLVMGetNextBasicBlock(b)) {
      if (!fb) fprintf(out, ",\n"); fb = false;
      fputc('[', out); bool fi = true;
      for (LLVMValueRef I = LLVMGetFirstInstruction(b); I; I = LLVMGetNextInstruction(I)) {
        if (LLVMIsADbgInfoIntrinsic(I)) continue;
        if (!fi) fputc(',', out); fi = false; dumpinst(I);
      }
      fputc(']', out);
    }
    fprintf(out, "]}");
  }
  fprintf(out, "}}\n"); fclose(out);
  return 0;
}
