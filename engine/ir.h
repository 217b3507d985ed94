// Loader for textual LLVM IR (the whole-program module rustc emits for a harness, after opt).
#pragma once
#include "expr.h"
struct Type { enum K : u8 { Void, Int, Ptr, Float, Array, Struct, Vec, Label, Meta, Func } k; u32 w = 0; u64 n = 0; std::vector<Type *> el; bool packed = false; bool opaque = false;
  u64 size = 0; u32 align = 1; u32 slots = 0; std::vector<u64> off; };
enum IOp : u8 { I_BIN, I_ICMP, I_ZEXT, I_SEXT, I_TRUNC, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_CALL, I_RET, I_BR, I_CONDBR, I_SWITCH, I_UNREACHABLE, I_MOV, I_CMPXCHG, I_RMW, I_NOP, I_SHUFFLE, I_INSERTELT, I_EXTRACTELT, I_REPACK, I_UNSUP };
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
struct Func; struct Edge { u32 target = 0; u32 pc = 0; std::vector<std::pair<i32, i32>> copies; };
struct CallInfo { Func *f = nullptr; i32 callee = 0; std::vector<i32> args; std::vector<u8> argw; u32 retSlots = 0; u8 retw = 0; Edge *normal = nullptr; u16 lanes = 1; };
struct GepIdx { i32 op; u8 w; u64 scale; };
struct GepInfo { std::vector<GepIdx> idx; };
struct SwitchInfo { u8 w; std::vector<std::pair<u64, Edge *>> cases; Edge *def; std::unordered_map<u64, Edge *> map; };
struct Inst { u8 op, sub, w, w2; u16 lanes; u16 flags; i32 dst, a, b, c; u64 imm; void *aux; void *aux2; };
struct Phi { i32 dst; u32 slots; std::vector<std::pair<u32, i32>> in; };
struct Block { u32 pc = 0; std::vector<Phi> phis; bool defined = false; };
struct Func { std::string name; u32 id; bool defined = false; int intrinsic = -1; std::vector<i32> params; u32 nparamSlots = 0; u32 nslots = 0; std::vector<Inst> code; std::vector<Val> consts; std::vector<Block> blocks; u64 execCount = 0; u32 retSlots = 0; std::string attrs; };
struct Global { std::string name; u64 addr; u64 size; std::vector<u8> init; bool isConst; bool external = false; bool tls = false; };
struct Module { std::vector<Global *> globals; std::vector<Func *> funcs; std::unordered_map<std::string, u64> sym; std::unordered_map<u64, Func *> funcByAddr; std::unordered_map<std::string, Func *> funcByName; u32 nextObj; };
static const unsigned OBJ_SHIFT = 32;
Module *loadModule(const char *path);
