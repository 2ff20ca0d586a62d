//! Compiled form of LLVM IR functions: flat scalar slots.
use crate::expr::Op;

/// operand: slot index, or constant index with the top bit set
pub type O = u32;
pub const CBIT: u32 = 1 << 31;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, ZExt, SExt, FToS, FToU, FToSSat, FToUSat, SToF, UToF, FToF }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Intr {
    UAddO, USubO, UMulO, SAddO, SSubO, SMulO,
    Ctlz, Cttz, Ctpop, Bswap, Bitrev,
    UMin, UMax, SMin, SMax, UCmp, SCmp, Abs, Fshl, Fshr,
    UAddSat, USubSat, SAddSat, SSubSat, FAbs, FCopysign, FTrunc, FFloor, FCeil, FRound, FRint,
    FPow, FPowi, FSqrt, FMin, FMax, FFma, FSin, FCos, FExp, FLog, FLog10, FLog2, FExp2,
    IsFpClass,
}

#[derive(Clone, Debug)]
pub enum I {
    Mov { d: u32, a: O },
    Bin { op: Op, w: u8, d: u32, a: O, b: O },
    Icmp { p: Pred, w: u8, d: u32, a: O, b: O },
    Cast { k: CastK, fw: u8, tw: u8, d: u32, a: O },
    FBin { op: Op, w: u8, d: u32, a: O, b: O },
    FRem { w: u8, d: u32, a: O, b: O },
    FNeg { w: u8, d: u32, a: O },
    FCmp { p: FPred, w: u8, d: u32, a: O, b: O },
    Sel { w: u8, d: u32, c: O, a: O, b: O },
    Load { d: u32, w: u8, nb: u8, a: O, off: i32 },
    Store { v: O, w: u8, nb: u8, a: O, off: i32 },
    Gep { d: u32, a: O, off: i64 },
    GepI { d: u32, a: O, i: O, iw: u8, scale: i64 },
    Alloca { d: u32, off: u32 },
    AllocaDyn { d: u32, n: O, elem: u32 },
    Br { e: u32 },
    CBr { c: O, t: u32, f: u32 },
    Switch { v: O, w: u8, t: u32 },
    Call { ci: u32 },
    Ret { start: u32, n: u32 },
    Unreach,
    Rmw { op: u8, w: u8, d: u32, a: O, v: O },
    CmpX { w: u8, d: u32, a: O, c: O, n: O },
    Pack { d: u32, ew: u8, n: u32, start: u32 },
    Unpack { d: u32, ew: u8, n: u32, a: O },
    ExtDyn { d: u32, start: u32, n: u32, i: O },
    InsDyn { d: u32, start: u32, n: u32, i: O, v: O },
    In { k: Intr, w: u8, d: u32, a: O, b: O, c: O },

}

#[derive(Clone, Debug)]
pub struct Edge { pub target: u32, pub moves: Vec<(u32, O)>, pub overlap: bool }

#[derive(Clone, Debug)]
pub struct SwitchT { pub cases: Vec<(u128, u32)>, pub default: u32, pub small: Option<(u64, Vec<u32>)> }

#[derive(Clone, Debug)]
pub enum Callee { Fn(u32), Ext(u32), Dyn(O), Nop }

#[derive(Clone, Debug)]
pub struct CallI { pub callee: Callee, pub args: Vec<O>, pub aw: Vec<u8>, pub d: u32, pub nret: u32, pub rw: Vec<u8> }

pub struct Func {
    pub name: String,
    pub idx: u32,
    pub nparams: u32,
    pub nslots: u32,
    pub consts: Vec<crate::exec::Val>,
    pub cwide: Vec<(u8, u128)>,
    pub code: Vec<I>,
    pub edges: Vec<Edge>,
    pub switches: Vec<SwitchT>,
    pub calls: Vec<CallI>,
    pub pool: Vec<O>,
    pub frame_size: u32,
    pub maxmoves: usize,
}
