// LLVM IR -> compact form
#pragma once
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <map>

struct SV { u64 c; Expr* e; }; // e == nullptr: concrete value c (width known from context)

enum Op : u16 { O_Bin, O_ICmp, O_FBin, O_FCmp, O_FNeg, O_Select, O_Cast, O_BitCast, O_GEP, O_Load, O_Store, O_Alloca, O_Call, O_Invoke, O_Br, O_CondBr, O_Switch, O_Ret,
    O_Extract, O_Insert, O_ExtElt, O_InsElt, O_Shuffle, O_LandingPad, O_Resume, O_Unreachable, O_Copy, O_AtomicRMW, O_CmpXchg, O_Nop };

struct LBlock; struct LFunc;
struct FieldLoc { u32 off; u16 w; };
struct GIdx { i32 opnd; u16 w; i64 scale; };
struct LInst {
    u16 op; u16 sub; u16 w; u16 w2; u32 n; i32 dst; i32 a, b, c; i64 off;
    llvm::Instruction* I; 
    std::vector<GIdx> gep; std::vector<FieldLoc> fields; std::vector<i32> args; std::vector<u16> argN; std::vector<u64> imm; std::vector<int> mask;
    std::vector<LBlock*> tgt; llvm::Function* callee = nullptr; int handler = -1; LFunc* lcallee = nullptr;
    u32 argTotal = 0;
};
struct LPhi { i32 dst; u32 n; std::vector<std::pair<LBlock*, i32>> in; };
struct LBlock { u32 idx; std::vector<LPhi> phis; std::vector<LInst> insts; LFunc* f; llvm::BasicBlock* bb; };
struct LFunc { llvm::Function* F; u32 nslots; u32 nparams; std::vector<std::unique_ptr<LBlock>> blocks; std::vector<std::pair<u32,u16>> params; // slot,width
    u64 calls = 0; };
