#pragma once
#include "poly.hpp"
#include <z3++.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/ADT/SmallString.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <functional>
#include <iostream>
#include <sstream>
#include <fstream>
#include <cstring>
#include <deque>
#include <random>

using namespace llvm;
using u64=uint64_t; using i64=int64_t;

enum VK : uint8_t { VU, VI, VIS, VRC, VRS, VRB, VA };
struct Val { VK k=VU; uint16_t w=0; u64 c=0; std::shared_ptr<const void> p; };
inline Val mkI(unsigned w,u64 c){ Val v; v.k=VI; v.w=(uint16_t)w; v.c= w>=64? c : (c & ((1ull<<w)-1)); return v; }
inline double asD(const Val&v){ double d; memcpy(&d,&v.c,8); return d; }
inline Val mkD(double d){ Val v; v.k=VRC; memcpy(&v.c,&d,8); return v; }
inline const z3::expr& zx(const Val&v){ return *std::static_pointer_cast<const z3::expr>(v.p); }
inline Frac fr(const Val&v){ return std::static_pointer_cast<const FracT>(v.p); }
inline const std::vector<Val>& agg(const Val&v){ return *std::static_pointer_cast<const std::vector<Val>>(v.p); }
inline Val mkA(std::vector<Val> a){ Val v; v.k=VA; v.p=std::make_shared<const std::vector<Val>>(std::move(a)); return v; }

struct Cell { Val v; uint32_t size; };
struct Obj { uint32_t size=0; uint8_t kind=0; /*1 global 2 heap 3 stack*/ bool ro=false; std::vector<uint8_t> b, tag; std::map<uint32_t,Cell> sym; };
using ObjP=std::shared_ptr<Obj>;
struct Chunk { ObjP o[64]; };
constexpr u64 BASEOFF=0x10000;
constexpr u64 FNBASE=1ull<<60;
inline u64 idOf(u64 a){ return a>>32; }
inline u64 addrOf(u64 id){ return (id<<32)+BASEOFF; }

struct DI { Instruction* I; int dst; unsigned op; std::vector<int> ops; };
struct FInfo { Function* F; std::vector<DI> ins; std::map<const BasicBlock*,int> bbStart; std::vector<Val> consts; int nslots; bool repo=false; };
struct Frame { FInfo* f; int ip; const BasicBlock* bb; const BasicBlock* prev; std::vector<Val> regs; std::vector<u64> allocas; };

struct Constraint { z3::expr e; std::vector<int> vars; };
struct State {
  std::vector<Frame> fr; std::vector<std::shared_ptr<Chunk>> mem; u64 nextId=0;
  std::vector<Constraint> pc; std::unordered_map<unsigned,bool> known; std::set<int> denSeen;
  u64 excPtr=0; const llvm::Value*excType=nullptr; std::vector<std::pair<u64,const llvm::Value*>> caught; bool allowExit=false, allowThrow=false, divCheck=false, rounding=false; u64 steps=0; int forks=0; std::vector<std::string> trace; 
  std::vector<std::pair<std::string,std::string>> notes;
};
using StateP=std::unique_ptr<State>;
