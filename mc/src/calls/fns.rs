//! Generated by gen_calls.py.
#![allow(unused)]
use super::*;
use crossmist::{func, lambda, BindMut, BindRef, BindValue, FnMutObject, FnObject, FnOnceObject, StaticFn};
use std::marker::PhantomData;

#[func]
pub fn f_0() -> u64 { let mut acc = 17u64; acc }
#[func]
pub fn f_V(a0: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc }
#[func]
pub fn f_R(a0: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc }
#[func]
pub fn f_M(a0: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_tv(a0: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc }
#[func]
pub fn f_tr(a0: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc }
#[func]
pub fn f_tm(a0: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); a0.0 = mix(a0.0, acc); acc }
#[func]
pub fn f_V2(a0: u64, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc }
#[func]
pub fn f_VR(a0: u64, a1: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc }
#[func]
pub fn f_VM(a0: u64, a1: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_Vtv(a0: u64, a1: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_Vtr(a0: u64, a1: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_Vtm(a0: u64, a1: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); a1.0 = mix(a1.0, acc); acc }
#[func]
pub fn f_RV(a0: &u64, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc }
#[func]
pub fn f_R2(a0: &u64, a1: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc }
#[func]
pub fn f_RM(a0: &u64, a1: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_Rtv(a0: &u64, a1: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_Rtr(a0: &u64, a1: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_Rtm(a0: &u64, a1: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); a1.0 = mix(a1.0, acc); acc }
#[func]
pub fn f_MV(a0: &mut u64, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_MR(a0: &mut u64, a1: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_M2(a0: &mut u64, a1: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_Mtv(a0: &mut u64, a1: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_Mtr(a0: &mut u64, a1: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_Mtm(a0: &mut u64, a1: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); a1.0 = mix(a1.0, acc); acc }
#[func]
pub fn f_tvV(a0: Tok, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc }
#[func]
pub fn f_tvR(a0: Tok, a1: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc }
#[func]
pub fn f_tvM(a0: Tok, a1: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_tv2(a0: Tok, a1: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_tvtr(a0: Tok, a1: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_tvtm(a0: Tok, a1: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a1.0 = mix(a1.0, acc); acc }
#[func]
pub fn f_trV(a0: &Tok, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc }
#[func]
pub fn f_trR(a0: &Tok, a1: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc }
#[func]
pub fn f_trM(a0: &Tok, a1: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_trtv(a0: &Tok, a1: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_tr2(a0: &Tok, a1: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc }
#[func]
pub fn f_trtm(a0: &Tok, a1: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a1.0 = mix(a1.0, acc); acc }
#[func]
pub fn f_tmV(a0: &mut Tok, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); a0.0 = mix(a0.0, acc); acc }
#[func]
pub fn f_tmR(a0: &mut Tok, a1: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); acc }
#[func]
pub fn f_tmM(a0: &mut Tok, a1: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_tmtv(a0: &mut Tok, a1: Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a0.0 = mix(a0.0, acc); acc }
#[func]
pub fn f_tmtr(a0: &mut Tok, a1: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a0.0 = mix(a0.0, acc); acc }
#[func]
pub fn f_tm2(a0: &mut Tok, a1: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a0.0 = mix(a0.0, acc); a1.0 = mix(a1.0, acc); acc }
#[func]
pub fn f_V3(a0: u64, a1: u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc }
#[func]
pub fn f_V2R(a0: u64, a1: u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc }
#[func]
pub fn f_V2M(a0: u64, a1: u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_VRV(a0: u64, a1: &u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc }
#[func]
pub fn f_VR2(a0: u64, a1: &u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc }
#[func]
pub fn f_VRM(a0: u64, a1: &u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_VMV(a0: u64, a1: &mut u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_VMR(a0: u64, a1: &mut u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_VM2(a0: u64, a1: &mut u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_RV2(a0: &u64, a1: u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc }
#[func]
pub fn f_RVR(a0: &u64, a1: u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc }
#[func]
pub fn f_RVM(a0: &u64, a1: u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_R2V(a0: &u64, a1: &u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc }
#[func]
pub fn f_R3(a0: &u64, a1: &u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc }
#[func]
pub fn f_R2M(a0: &u64, a1: &u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_RMV(a0: &u64, a1: &mut u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_RMR(a0: &u64, a1: &mut u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_RM2(a0: &u64, a1: &mut u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_MV2(a0: &mut u64, a1: u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_MVR(a0: &mut u64, a1: u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_MVM(a0: &mut u64, a1: u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_MRV(a0: &mut u64, a1: &u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_MR2(a0: &mut u64, a1: &u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc }
#[func]
pub fn f_MRM(a0: &mut u64, a1: &u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_M2V(a0: &mut u64, a1: &mut u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_M2R(a0: &mut u64, a1: &mut u64, a2: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc }
#[func]
pub fn f_M3(a0: &mut u64, a1: &mut u64, a2: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc }
#[func]
pub fn f_V4(a0: u64, a1: u64, a2: u64, a3: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc }
#[func]
pub fn f_R4(a0: &u64, a1: &u64, a2: &u64, a3: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc }
#[func]
pub fn f_M4(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); acc }
#[func]
pub fn f_V5(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc }
#[func]
pub fn f_R5(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc }
#[func]
pub fn f_M5(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); acc }
#[func]
pub fn f_V6(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc }
#[func]
pub fn f_R6(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc }
#[func]
pub fn f_M6(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); acc }
#[func]
pub fn f_V7(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc }
#[func]
pub fn f_R7(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc }
#[func]
pub fn f_M7(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); acc }
#[func]
pub fn f_V8(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc }
#[func]
pub fn f_R8(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc }
#[func]
pub fn f_M8(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); acc }
#[func]
pub fn f_V9(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc }
#[func]
pub fn f_R9(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc }
#[func]
pub fn f_M9(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); acc }
#[func]
pub fn f_V10(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc }
#[func]
pub fn f_R10(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc }
#[func]
pub fn f_M10(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); acc }
#[func]
pub fn f_V11(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc }
#[func]
pub fn f_R11(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc }
#[func]
pub fn f_M11(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); acc }
#[func]
pub fn f_V12(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc }
#[func]
pub fn f_R12(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc }
#[func]
pub fn f_M12(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); acc }
#[func]
pub fn f_V13(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc }
#[func]
pub fn f_R13(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc }
#[func]
pub fn f_M13(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); acc }
#[func]
pub fn f_V14(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc }
#[func]
pub fn f_R14(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc }
#[func]
pub fn f_M14(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); acc }
#[func]
pub fn f_V15(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc }
#[func]
pub fn f_R15(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64, a14: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc }
#[func]
pub fn f_M15(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64, a14: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); *a14 = mix(*a14, acc); acc }
#[func]
pub fn f_V16(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc }
#[func]
pub fn f_R16(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64, a14: &u64, a15: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc }
#[func]
pub fn f_M16(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64, a14: &mut u64, a15: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); *a14 = mix(*a14, acc); *a15 = mix(*a15, acc); acc }
#[func]
pub fn f_V17(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc }
#[func]
pub fn f_R17(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64, a14: &u64, a15: &u64, a16: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc }
#[func]
pub fn f_M17(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64, a14: &mut u64, a15: &mut u64, a16: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); *a14 = mix(*a14, acc); *a15 = mix(*a15, acc); *a16 = mix(*a16, acc); acc }
#[func]
pub fn f_V18(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc = mix(acc, a17); acc }
#[func]
pub fn f_R18(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64, a14: &u64, a15: &u64, a16: &u64, a17: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc = mix(acc, *a17); acc }
#[func]
pub fn f_M18(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64, a14: &mut u64, a15: &mut u64, a16: &mut u64, a17: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc = mix(acc, *a17); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); *a14 = mix(*a14, acc); *a15 = mix(*a15, acc); *a16 = mix(*a16, acc); *a17 = mix(*a17, acc); acc }
#[func]
pub fn f_V19(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc = mix(acc, a17); acc = mix(acc, a18); acc }
#[func]
pub fn f_R19(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64, a14: &u64, a15: &u64, a16: &u64, a17: &u64, a18: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc = mix(acc, *a17); acc = mix(acc, *a18); acc }
#[func]
pub fn f_M19(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64, a14: &mut u64, a15: &mut u64, a16: &mut u64, a17: &mut u64, a18: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc = mix(acc, *a17); acc = mix(acc, *a18); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); *a14 = mix(*a14, acc); *a15 = mix(*a15, acc); *a16 = mix(*a16, acc); *a17 = mix(*a17, acc); *a18 = mix(*a18, acc); acc }
#[func]
pub fn f_V20(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc = mix(acc, a17); acc = mix(acc, a18); acc = mix(acc, a19); acc }
#[func]
pub fn f_R20(a0: &u64, a1: &u64, a2: &u64, a3: &u64, a4: &u64, a5: &u64, a6: &u64, a7: &u64, a8: &u64, a9: &u64, a10: &u64, a11: &u64, a12: &u64, a13: &u64, a14: &u64, a15: &u64, a16: &u64, a17: &u64, a18: &u64, a19: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc = mix(acc, *a17); acc = mix(acc, *a18); acc = mix(acc, *a19); acc }
#[func]
pub fn f_M20(a0: &mut u64, a1: &mut u64, a2: &mut u64, a3: &mut u64, a4: &mut u64, a5: &mut u64, a6: &mut u64, a7: &mut u64, a8: &mut u64, a9: &mut u64, a10: &mut u64, a11: &mut u64, a12: &mut u64, a13: &mut u64, a14: &mut u64, a15: &mut u64, a16: &mut u64, a17: &mut u64, a18: &mut u64, a19: &mut u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, *a16); acc = mix(acc, *a17); acc = mix(acc, *a18); acc = mix(acc, *a19); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); *a3 = mix(*a3, acc); *a4 = mix(*a4, acc); *a5 = mix(*a5, acc); *a6 = mix(*a6, acc); *a7 = mix(*a7, acc); *a8 = mix(*a8, acc); *a9 = mix(*a9, acc); *a10 = mix(*a10, acc); *a11 = mix(*a11, acc); *a12 = mix(*a12, acc); *a13 = mix(*a13, acc); *a14 = mix(*a14, acc); *a15 = mix(*a15, acc); *a16 = mix(*a16, acc); *a17 = mix(*a17, acc); *a18 = mix(*a18, acc); *a19 = mix(*a19, acc); acc }
#[func]
pub fn f_VRMtvtrtm(a0: u64, a1: &u64, a2: &mut u64, a3: Tok, a4: &Tok, a5: &mut Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3.0); acc = mix(acc, a4.0); acc = mix(acc, a5.0); *a2 = mix(*a2, acc); a5.0 = mix(a5.0, acc); acc }
#[func]
pub fn f_tmtrtvMRV(a0: &mut Tok, a1: &Tok, a2: Tok, a3: &mut u64, a4: &u64, a5: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, a5); a0.0 = mix(a0.0, acc); *a3 = mix(*a3, acc); acc }
#[func]
pub fn f_VRMVRMVRMVRMVRMVRMVR(a0: u64, a1: &u64, a2: &mut u64, a3: u64, a4: &u64, a5: &mut u64, a6: u64, a7: &u64, a8: &mut u64, a9: u64, a10: &u64, a11: &mut u64, a12: u64, a13: &u64, a14: &mut u64, a15: u64, a16: &u64, a17: &mut u64, a18: u64, a19: &u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, a9); acc = mix(acc, *a10); acc = mix(acc, *a11); acc = mix(acc, a12); acc = mix(acc, *a13); acc = mix(acc, *a14); acc = mix(acc, a15); acc = mix(acc, *a16); acc = mix(acc, *a17); acc = mix(acc, a18); acc = mix(acc, *a19); *a2 = mix(*a2, acc); *a5 = mix(*a5, acc); *a8 = mix(*a8, acc); *a11 = mix(*a11, acc); *a14 = mix(*a14, acc); *a17 = mix(*a17, acc); acc }
#[func]
pub fn f_MVRMVRMVRMVRMVRMVRMV(a0: &mut u64, a1: u64, a2: &u64, a3: &mut u64, a4: u64, a5: &u64, a6: &mut u64, a7: u64, a8: &u64, a9: &mut u64, a10: u64, a11: &u64, a12: &mut u64, a13: u64, a14: &u64, a15: &mut u64, a16: u64, a17: &u64, a18: &mut u64, a19: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, a7); acc = mix(acc, *a8); acc = mix(acc, *a9); acc = mix(acc, a10); acc = mix(acc, *a11); acc = mix(acc, *a12); acc = mix(acc, a13); acc = mix(acc, *a14); acc = mix(acc, *a15); acc = mix(acc, a16); acc = mix(acc, *a17); acc = mix(acc, *a18); acc = mix(acc, a19); *a0 = mix(*a0, acc); *a3 = mix(*a3, acc); *a6 = mix(*a6, acc); *a9 = mix(*a9, acc); *a12 = mix(*a12, acc); *a15 = mix(*a15, acc); *a18 = mix(*a18, acc); acc }
#[func]
pub fn f_trMVtrMVtrMVtrMVtrMVtrMVtr(a0: &Tok, a1: &mut u64, a2: u64, a3: &Tok, a4: &mut u64, a5: u64, a6: &Tok, a7: &mut u64, a8: u64, a9: &Tok, a10: &mut u64, a11: u64, a12: &Tok, a13: &mut u64, a14: u64, a15: &Tok, a16: &mut u64, a17: u64, a18: &Tok) -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3.0); acc = mix(acc, *a4); acc = mix(acc, a5); acc = mix(acc, a6.0); acc = mix(acc, *a7); acc = mix(acc, a8); acc = mix(acc, a9.0); acc = mix(acc, *a10); acc = mix(acc, a11); acc = mix(acc, a12.0); acc = mix(acc, *a13); acc = mix(acc, a14); acc = mix(acc, a15.0); acc = mix(acc, *a16); acc = mix(acc, a17); acc = mix(acc, a18.0); *a1 = mix(*a1, acc); *a4 = mix(*a4, acc); *a7 = mix(*a7, acc); *a10 = mix(*a10, acc); *a13 = mix(*a13, acc); *a16 = mix(*a16, acc); acc }
#[func]
pub fn f_RMRMRMRMRV(a0: &u64, a1: &mut u64, a2: &u64, a3: &mut u64, a4: &u64, a5: &mut u64, a6: &u64, a7: &mut u64, a8: &u64, a9: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, *a3); acc = mix(acc, *a4); acc = mix(acc, *a5); acc = mix(acc, *a6); acc = mix(acc, *a7); acc = mix(acc, *a8); acc = mix(acc, a9); *a1 = mix(*a1, acc); *a3 = mix(*a3, acc); *a5 = mix(*a5, acc); *a7 = mix(*a7, acc); acc }
fn plain0() -> u64 { let mut acc = 17u64; acc }
fn plain1(a0: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc }
fn plain2(a0: u64, a1: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc }
fn plain3(a0: u64, a1: u64, a2: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc }
fn plain4(a0: u64, a1: u64, a2: u64, a3: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc }
fn plain5(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc }
fn plain6(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc }
fn plain7(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc }
fn plain8(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc }
fn plain9(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc }
fn plain10(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc }
fn plain11(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc }
fn plain12(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc }
fn plain13(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc }
fn plain14(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc }
fn plain15(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc }
fn plain16(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc }
fn plain17(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc }
fn plain18(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc = mix(acc, a17); acc }
fn plain19(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc = mix(acc, a17); acc = mix(acc, a18); acc }
fn plain20(a0: u64, a1: u64, a2: u64, a3: u64, a4: u64, a5: u64, a6: u64, a7: u64, a8: u64, a9: u64, a10: u64, a11: u64, a12: u64, a13: u64, a14: u64, a15: u64, a16: u64, a17: u64, a18: u64, a19: u64) -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc = mix(acc, a4); acc = mix(acc, a5); acc = mix(acc, a6); acc = mix(acc, a7); acc = mix(acc, a8); acc = mix(acc, a9); acc = mix(acc, a10); acc = mix(acc, a11); acc = mix(acc, a12); acc = mix(acc, a13); acc = mix(acc, a14); acc = mix(acc, a15); acc = mix(acc, a16); acc = mix(acc, a17); acc = mix(acc, a18); acc = mix(acc, a19); acc }
pub struct S0;
callable! { S0, (), v, [let [] = v else { unreachable!() }; ], (), [], () }
pub struct SM;
callable! { SM, (&'a mut u64,), v, [let [a0] = v else { unreachable!() }; ], (a0,), [], (a0) }
pub struct SR;
callable! { SR, (&'a u64,), v, [let [a0] = v else { unreachable!() }; ], (&*a0,), [], (&*a0) }
pub struct SV;
callable! { SV, (u64,), v, [let [a0] = v else { unreachable!() }; ], (*a0,), [], (*a0) }
pub struct Stm;
callable! { Stm, (&'a mut Tok,), v, [let [a0] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&mut *t0,), [*a0 = t0.0; ], (&mut *t0) }
pub struct Str;
callable! { Str, (&'a Tok,), v, [let [a0] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&*t0,), [*a0 = t0.0; ], (&*t0) }
pub struct Stv;
callable! { Stv, (Tok,), v, [let [a0] = v else { unreachable!() }; ], (Tok::new(*a0),), [], (Tok::new(*a0)) }
pub struct SM2;
callable! { SM2, (&'a mut u64,&'a mut u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (a0,a1,), [], (a0, a1) }
pub struct SMR;
callable! { SMR, (&'a mut u64,&'a u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (a0,&*a1,), [], (a0, &*a1) }
pub struct SMV;
callable! { SMV, (&'a mut u64,u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (a0,*a1,), [], (a0, *a1) }
pub struct SMtm;
callable! { SMtm, (&'a mut u64,&'a mut Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (a0,&mut *t1,), [*a1 = t1.0; ], (a0, &mut *t1) }
pub struct SMtr;
callable! { SMtr, (&'a mut u64,&'a Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (a0,&*t1,), [*a1 = t1.0; ], (a0, &*t1) }
pub struct SMtv;
callable! { SMtv, (&'a mut u64,Tok,), v, [let [a0, a1] = v else { unreachable!() }; ], (a0,Tok::new(*a1),), [], (a0, Tok::new(*a1)) }
pub struct SRM;
callable! { SRM, (&'a u64,&'a mut u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (&*a0,a1,), [], (&*a0, a1) }
pub struct SR2;
callable! { SR2, (&'a u64,&'a u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (&*a0,&*a1,), [], (&*a0, &*a1) }
pub struct SRV;
callable! { SRV, (&'a u64,u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (&*a0,*a1,), [], (&*a0, *a1) }
pub struct SRtm;
callable! { SRtm, (&'a u64,&'a mut Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&*a0,&mut *t1,), [*a1 = t1.0; ], (&*a0, &mut *t1) }
pub struct SRtr;
callable! { SRtr, (&'a u64,&'a Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&*a0,&*t1,), [*a1 = t1.0; ], (&*a0, &*t1) }
pub struct SRtv;
callable! { SRtv, (&'a u64,Tok,), v, [let [a0, a1] = v else { unreachable!() }; ], (&*a0,Tok::new(*a1),), [], (&*a0, Tok::new(*a1)) }
pub struct SVM;
callable! { SVM, (u64,&'a mut u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (*a0,a1,), [], (*a0, a1) }
pub struct SVR;
callable! { SVR, (u64,&'a u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (*a0,&*a1,), [], (*a0, &*a1) }
pub struct SV2;
callable! { SV2, (u64,u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (*a0,*a1,), [], (*a0, *a1) }
pub struct SVtm;
callable! { SVtm, (u64,&'a mut Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (*a0,&mut *t1,), [*a1 = t1.0; ], (*a0, &mut *t1) }
pub struct SVtr;
callable! { SVtr, (u64,&'a Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (*a0,&*t1,), [*a1 = t1.0; ], (*a0, &*t1) }
pub struct SVtv;
callable! { SVtv, (u64,Tok,), v, [let [a0, a1] = v else { unreachable!() }; ], (*a0,Tok::new(*a1),), [], (*a0, Tok::new(*a1)) }
pub struct StmM;
callable! { StmM, (&'a mut Tok,&'a mut u64,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&mut *t0,a1,), [*a0 = t0.0; ], (&mut *t0, a1) }
pub struct StmR;
callable! { StmR, (&'a mut Tok,&'a u64,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&mut *t0,&*a1,), [*a0 = t0.0; ], (&mut *t0, &*a1) }
pub struct StmV;
callable! { StmV, (&'a mut Tok,u64,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&mut *t0,*a1,), [*a0 = t0.0; ], (&mut *t0, *a1) }
pub struct Stm2;
callable! { Stm2, (&'a mut Tok,&'a mut Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&mut *t0,&mut *t1,), [*a0 = t0.0; *a1 = t1.0; ], (&mut *t0, &mut *t1) }
pub struct Stmtr;
callable! { Stmtr, (&'a mut Tok,&'a Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&mut *t0,&*t1,), [*a0 = t0.0; *a1 = t1.0; ], (&mut *t0, &*t1) }
pub struct Stmtv;
callable! { Stmtv, (&'a mut Tok,Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&mut *t0,Tok::new(*a1),), [*a0 = t0.0; ], (&mut *t0, Tok::new(*a1)) }
pub struct StrM;
callable! { StrM, (&'a Tok,&'a mut u64,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&*t0,a1,), [*a0 = t0.0; ], (&*t0, a1) }
pub struct StrR;
callable! { StrR, (&'a Tok,&'a u64,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&*t0,&*a1,), [*a0 = t0.0; ], (&*t0, &*a1) }
pub struct StrV;
callable! { StrV, (&'a Tok,u64,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&*t0,*a1,), [*a0 = t0.0; ], (&*t0, *a1) }
pub struct Strtm;
callable! { Strtm, (&'a Tok,&'a mut Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&*t0,&mut *t1,), [*a0 = t0.0; *a1 = t1.0; ], (&*t0, &mut *t1) }
pub struct Str2;
callable! { Str2, (&'a Tok,&'a Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&*t0,&*t1,), [*a0 = t0.0; *a1 = t1.0; ], (&*t0, &*t1) }
pub struct Strtv;
callable! { Strtv, (&'a Tok,Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&*t0,Tok::new(*a1),), [*a0 = t0.0; ], (&*t0, Tok::new(*a1)) }
pub struct StvM;
callable! { StvM, (Tok,&'a mut u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (Tok::new(*a0),a1,), [], (Tok::new(*a0), a1) }
pub struct StvR;
callable! { StvR, (Tok,&'a u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (Tok::new(*a0),&*a1,), [], (Tok::new(*a0), &*a1) }
pub struct StvV;
callable! { StvV, (Tok,u64,), v, [let [a0, a1] = v else { unreachable!() }; ], (Tok::new(*a0),*a1,), [], (Tok::new(*a0), *a1) }
pub struct Stvtm;
callable! { Stvtm, (Tok,&'a mut Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (Tok::new(*a0),&mut *t1,), [*a1 = t1.0; ], (Tok::new(*a0), &mut *t1) }
pub struct Stvtr;
callable! { Stvtr, (Tok,&'a Tok,), v, [let [a0, a1] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (Tok::new(*a0),&*t1,), [*a1 = t1.0; ], (Tok::new(*a0), &*t1) }
pub struct Stv2;
callable! { Stv2, (Tok,Tok,), v, [let [a0, a1] = v else { unreachable!() }; ], (Tok::new(*a0),Tok::new(*a1),), [], (Tok::new(*a0), Tok::new(*a1)) }
pub struct SM3;
callable! { SM3, (&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,a1,a2,), [], (a0, a1, a2) }
pub struct SM2R;
callable! { SM2R, (&'a mut u64,&'a mut u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,a1,&*a2,), [], (a0, a1, &*a2) }
pub struct SM2V;
callable! { SM2V, (&'a mut u64,&'a mut u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,a1,*a2,), [], (a0, a1, *a2) }
pub struct SMRM;
callable! { SMRM, (&'a mut u64,&'a u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,&*a1,a2,), [], (a0, &*a1, a2) }
pub struct SMR2;
callable! { SMR2, (&'a mut u64,&'a u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,&*a1,&*a2,), [], (a0, &*a1, &*a2) }
pub struct SMRV;
callable! { SMRV, (&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,&*a1,*a2,), [], (a0, &*a1, *a2) }
pub struct SMVM;
callable! { SMVM, (&'a mut u64,u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,*a1,a2,), [], (a0, *a1, a2) }
pub struct SMVR;
callable! { SMVR, (&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,*a1,&*a2,), [], (a0, *a1, &*a2) }
pub struct SMV2;
callable! { SMV2, (&'a mut u64,u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (a0,*a1,*a2,), [], (a0, *a1, *a2) }
pub struct SRM2;
callable! { SRM2, (&'a u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,a1,a2,), [], (&*a0, a1, a2) }
pub struct SRMR;
callable! { SRMR, (&'a u64,&'a mut u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,a1,&*a2,), [], (&*a0, a1, &*a2) }
pub struct SRMV;
callable! { SRMV, (&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,a1,*a2,), [], (&*a0, a1, *a2) }
pub struct SR2M;
callable! { SR2M, (&'a u64,&'a u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,&*a1,a2,), [], (&*a0, &*a1, a2) }
pub struct SR3;
callable! { SR3, (&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,), [], (&*a0, &*a1, &*a2) }
pub struct SR2V;
callable! { SR2V, (&'a u64,&'a u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,&*a1,*a2,), [], (&*a0, &*a1, *a2) }
pub struct SRVM;
callable! { SRVM, (&'a u64,u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,*a1,a2,), [], (&*a0, *a1, a2) }
pub struct SRVR;
callable! { SRVR, (&'a u64,u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,*a1,&*a2,), [], (&*a0, *a1, &*a2) }
pub struct SRV2;
callable! { SRV2, (&'a u64,u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (&*a0,*a1,*a2,), [], (&*a0, *a1, *a2) }
pub struct SVM2;
callable! { SVM2, (u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,a1,a2,), [], (*a0, a1, a2) }
pub struct SVMR;
callable! { SVMR, (u64,&'a mut u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,a1,&*a2,), [], (*a0, a1, &*a2) }
pub struct SVMV;
callable! { SVMV, (u64,&'a mut u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,a1,*a2,), [], (*a0, a1, *a2) }
pub struct SVRM;
callable! { SVRM, (u64,&'a u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,&*a1,a2,), [], (*a0, &*a1, a2) }
pub struct SVR2;
callable! { SVR2, (u64,&'a u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,&*a1,&*a2,), [], (*a0, &*a1, &*a2) }
pub struct SVRV;
callable! { SVRV, (u64,&'a u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,&*a1,*a2,), [], (*a0, &*a1, *a2) }
pub struct SV2M;
callable! { SV2M, (u64,u64,&'a mut u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,*a1,a2,), [], (*a0, *a1, a2) }
pub struct SV2R;
callable! { SV2R, (u64,u64,&'a u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,*a1,&*a2,), [], (*a0, *a1, &*a2) }
pub struct SV3;
callable! { SV3, (u64,u64,u64,), v, [let [a0, a1, a2] = v else { unreachable!() }; ], (*a0,*a1,*a2,), [], (*a0, *a1, *a2) }
pub struct Stvtrtm;
callable! { Stvtrtm, (Tok,&'a Tok,&'a mut Tok,), v, [let [a0, a1, a2] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; let mut t2 = Tok::new(*a2); let t2 = &mut t2; ], (Tok::new(*a0),&*t1,&mut *t2,), [*a1 = t1.0; *a2 = t2.0; ], (Tok::new(*a0), &*t1, &mut *t2) }
pub struct SM4;
callable! { SM4, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3] = v else { unreachable!() }; ], (a0,a1,a2,a3,), [], (a0, a1, a2, a3) }
pub struct SMtvtrtm;
callable! { SMtvtrtm, (&'a mut u64,Tok,&'a Tok,&'a mut Tok,), v, [let [a0, a1, a2, a3] = v else { unreachable!() }; let mut t2 = Tok::new(*a2); let t2 = &mut t2; let mut t3 = Tok::new(*a3); let t3 = &mut t3; ], (a0,Tok::new(*a1),&*t2,&mut *t3,), [*a2 = t2.0; *a3 = t3.0; ], (a0, Tok::new(*a1), &*t2, &mut *t3) }
pub struct SRMRV;
callable! { SRMRV, (&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3] = v else { unreachable!() }; ], (&*a0,a1,&*a2,*a3,), [], (&*a0, a1, &*a2, *a3) }
pub struct SR4;
callable! { SR4, (&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,), [], (&*a0, &*a1, &*a2, &*a3) }
pub struct SV4;
callable! { SV4, (u64,u64,u64,u64,), v, [let [a0, a1, a2, a3] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,), [], (*a0, *a1, *a2, *a3) }
pub struct StvMRV;
callable! { StvMRV, (Tok,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3] = v else { unreachable!() }; ], (Tok::new(*a0),a1,&*a2,*a3,), [], (Tok::new(*a0), a1, &*a2, *a3) }
pub struct SM5;
callable! { SM5, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,), [], (a0, a1, a2, a3, a4) }
pub struct SMRMRV;
callable! { SMRMRV, (&'a mut u64,&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4] = v else { unreachable!() }; ], (a0,&*a1,a2,&*a3,*a4,), [], (a0, &*a1, a2, &*a3, *a4) }
pub struct SRMtvtrtm;
callable! { SRMtvtrtm, (&'a u64,&'a mut u64,Tok,&'a Tok,&'a mut Tok,), v, [let [a0, a1, a2, a3, a4] = v else { unreachable!() }; let mut t3 = Tok::new(*a3); let t3 = &mut t3; let mut t4 = Tok::new(*a4); let t4 = &mut t4; ], (&*a0,a1,Tok::new(*a2),&*t3,&mut *t4,), [*a3 = t3.0; *a4 = t4.0; ], (&*a0, a1, Tok::new(*a2), &*t3, &mut *t4) }
pub struct SR5;
callable! { SR5, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,), [], (&*a0, &*a1, &*a2, &*a3, &*a4) }
pub struct SV5;
callable! { SV5, (u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,), [], (*a0, *a1, *a2, *a3, *a4) }
pub struct StrtvMRV;
callable! { StrtvMRV, (&'a Tok,Tok,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; ], (&*t0,Tok::new(*a1),a2,&*a3,*a4,), [*a0 = t0.0; ], (&*t0, Tok::new(*a1), a2, &*a3, *a4) }
pub struct SM6;
callable! { SM6, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,), [], (a0, a1, a2, a3, a4, a5) }
pub struct SRMRMRV;
callable! { SRMRMRV, (&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4, a5] = v else { unreachable!() }; ], (&*a0,a1,&*a2,a3,&*a4,*a5,), [], (&*a0, a1, &*a2, a3, &*a4, *a5) }
pub struct SR6;
callable! { SR6, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5) }
pub struct SVRMtvtrtm;
callable! { SVRMtvtrtm, (u64,&'a u64,&'a mut u64,Tok,&'a Tok,&'a mut Tok,), v, [let [a0, a1, a2, a3, a4, a5] = v else { unreachable!() }; let mut t4 = Tok::new(*a4); let t4 = &mut t4; let mut t5 = Tok::new(*a5); let t5 = &mut t5; ], (*a0,&*a1,a2,Tok::new(*a3),&*t4,&mut *t5,), [*a4 = t4.0; *a5 = t5.0; ], (*a0, &*a1, a2, Tok::new(*a3), &*t4, &mut *t5) }
pub struct SV6;
callable! { SV6, (u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,), [], (*a0, *a1, *a2, *a3, *a4, *a5) }
pub struct StmtrtvMRV;
callable! { StmtrtvMRV, (&'a mut Tok,&'a Tok,Tok,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4, a5] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t1 = Tok::new(*a1); let t1 = &mut t1; ], (&mut *t0,&*t1,Tok::new(*a2),a3,&*a4,*a5,), [*a0 = t0.0; *a1 = t1.0; ], (&mut *t0, &*t1, Tok::new(*a2), a3, &*a4, *a5) }
pub struct SM7;
callable! { SM7, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,), [], (a0, a1, a2, a3, a4, a5, a6) }
pub struct SMRMRMRV;
callable! { SMRMRMRV, (&'a mut u64,&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6] = v else { unreachable!() }; ], (a0,&*a1,a2,&*a3,a4,&*a5,*a6,), [], (a0, &*a1, a2, &*a3, a4, &*a5, *a6) }
pub struct SR7;
callable! { SR7, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6) }
pub struct SV7;
callable! { SV7, (u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6) }
pub struct SM8;
callable! { SM8, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,), [], (a0, a1, a2, a3, a4, a5, a6, a7) }
pub struct SRMRMRMRV;
callable! { SRMRMRMRV, (&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7] = v else { unreachable!() }; ], (&*a0,a1,&*a2,a3,&*a4,a5,&*a6,*a7,), [], (&*a0, a1, &*a2, a3, &*a4, a5, &*a6, *a7) }
pub struct SR8;
callable! { SR8, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7) }
pub struct SV8;
callable! { SV8, (u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7) }
pub struct SM9;
callable! { SM9, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8) }
pub struct SMRMRMRMRV;
callable! { SMRMRMRMRV, (&'a mut u64,&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8] = v else { unreachable!() }; ], (a0,&*a1,a2,&*a3,a4,&*a5,a6,&*a7,*a8,), [], (a0, &*a1, a2, &*a3, a4, &*a5, a6, &*a7, *a8) }
pub struct SR9;
callable! { SR9, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8) }
pub struct SV9;
callable! { SV9, (u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8) }
pub struct SM10;
callable! { SM10, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9) }
pub struct SRMRMRMRMRV;
callable! { SRMRMRMRMRV, (&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,&'a mut u64,&'a u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] = v else { unreachable!() }; ], (&*a0,a1,&*a2,a3,&*a4,a5,&*a6,a7,&*a8,*a9,), [], (&*a0, a1, &*a2, a3, &*a4, a5, &*a6, a7, &*a8, *a9) }
pub struct SR10;
callable! { SR10, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9) }
pub struct SV10;
callable! { SV10, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9) }
pub struct StrMVtrMVtrMVtr;
callable! { StrMVtrMVtrMVtr, (&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t3 = Tok::new(*a3); let t3 = &mut t3; let mut t6 = Tok::new(*a6); let t6 = &mut t6; let mut t9 = Tok::new(*a9); let t9 = &mut t9; ], (&*t0,a1,*a2,&*t3,a4,*a5,&*t6,a7,*a8,&*t9,), [*a0 = t0.0; *a3 = t3.0; *a6 = t6.0; *a9 = t9.0; ], (&*t0, a1, *a2, &*t3, a4, *a5, &*t6, a7, *a8, &*t9) }
pub struct SM11;
callable! { SM11, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10) }
pub struct SMVRMVRMVRMV;
callable! { SMVRMVRMVRMV, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10) }
pub struct SR11;
callable! { SR11, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10) }
pub struct SVRMVRMVRMVR;
callable! { SVRMVRMVRMVR, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10) }
pub struct SV11;
callable! { SV11, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10) }
pub struct SVtrMVtrMVtrMVtr;
callable! { SVtrMVtrMVtrMVtr, (u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; let mut t4 = Tok::new(*a4); let t4 = &mut t4; let mut t7 = Tok::new(*a7); let t7 = &mut t7; let mut t10 = Tok::new(*a10); let t10 = &mut t10; ], (*a0,&*t1,a2,*a3,&*t4,a5,*a6,&*t7,a8,*a9,&*t10,), [*a1 = t1.0; *a4 = t4.0; *a7 = t7.0; *a10 = t10.0; ], (*a0, &*t1, a2, *a3, &*t4, a5, *a6, &*t7, a8, *a9, &*t10) }
pub struct SM12;
callable! { SM12, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11) }
pub struct SMVRMVRMVRMVR;
callable! { SMVRMVRMVRMVR, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,&*a11,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10, &*a11) }
pub struct SMVtrMVtrMVtrMVtr;
callable! { SMVtrMVtrMVtrMVtr, (&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = v else { unreachable!() }; let mut t2 = Tok::new(*a2); let t2 = &mut t2; let mut t5 = Tok::new(*a5); let t5 = &mut t5; let mut t8 = Tok::new(*a8); let t8 = &mut t8; let mut t11 = Tok::new(*a11); let t11 = &mut t11; ], (a0,*a1,&*t2,a3,*a4,&*t5,a6,*a7,&*t8,a9,*a10,&*t11,), [*a2 = t2.0; *a5 = t5.0; *a8 = t8.0; *a11 = t11.0; ], (a0, *a1, &*t2, a3, *a4, &*t5, a6, *a7, &*t8, a9, *a10, &*t11) }
pub struct SRMVRMVRMVRMV;
callable! { SRMVRMVRMVRMV, (&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = v else { unreachable!() }; ], (&*a0,a1,*a2,&*a3,a4,*a5,&*a6,a7,*a8,&*a9,a10,*a11,), [], (&*a0, a1, *a2, &*a3, a4, *a5, &*a6, a7, *a8, &*a9, a10, *a11) }
pub struct SR12;
callable! { SR12, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11) }
pub struct SV12;
callable! { SV12, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11) }
pub struct SM13;
callable! { SM13, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12) }
pub struct SRMVRMVRMVRMVR;
callable! { SRMVRMVRMVRMVR, (&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] = v else { unreachable!() }; ], (&*a0,a1,*a2,&*a3,a4,*a5,&*a6,a7,*a8,&*a9,a10,*a11,&*a12,), [], (&*a0, a1, *a2, &*a3, a4, *a5, &*a6, a7, *a8, &*a9, a10, *a11, &*a12) }
pub struct SR13;
callable! { SR13, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12) }
pub struct SVRMVRMVRMVRMV;
callable! { SVRMVRMVRMVRMV, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,a11,*a12,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10, a11, *a12) }
pub struct SV13;
callable! { SV13, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12) }
pub struct StrMVtrMVtrMVtrMVtr;
callable! { StrMVtrMVtrMVtrMVtr, (&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t3 = Tok::new(*a3); let t3 = &mut t3; let mut t6 = Tok::new(*a6); let t6 = &mut t6; let mut t9 = Tok::new(*a9); let t9 = &mut t9; let mut t12 = Tok::new(*a12); let t12 = &mut t12; ], (&*t0,a1,*a2,&*t3,a4,*a5,&*t6,a7,*a8,&*t9,a10,*a11,&*t12,), [*a0 = t0.0; *a3 = t3.0; *a6 = t6.0; *a9 = t9.0; *a12 = t12.0; ], (&*t0, a1, *a2, &*t3, a4, *a5, &*t6, a7, *a8, &*t9, a10, *a11, &*t12) }
pub struct SM14;
callable! { SM14, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) }
pub struct SMVRMVRMVRMVRMV;
callable! { SMVRMVRMVRMVRMV, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,&*a11,a12,*a13,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10, &*a11, a12, *a13) }
pub struct SR14;
callable! { SR14, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13) }
pub struct SVRMVRMVRMVRMVR;
callable! { SVRMVRMVRMVRMVR, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,a11,*a12,&*a13,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10, a11, *a12, &*a13) }
pub struct SV14;
callable! { SV14, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13) }
pub struct SVtrMVtrMVtrMVtrMVtr;
callable! { SVtrMVtrMVtrMVtrMVtr, (u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; let mut t4 = Tok::new(*a4); let t4 = &mut t4; let mut t7 = Tok::new(*a7); let t7 = &mut t7; let mut t10 = Tok::new(*a10); let t10 = &mut t10; let mut t13 = Tok::new(*a13); let t13 = &mut t13; ], (*a0,&*t1,a2,*a3,&*t4,a5,*a6,&*t7,a8,*a9,&*t10,a11,*a12,&*t13,), [*a1 = t1.0; *a4 = t4.0; *a7 = t7.0; *a10 = t10.0; *a13 = t13.0; ], (*a0, &*t1, a2, *a3, &*t4, a5, *a6, &*t7, a8, *a9, &*t10, a11, *a12, &*t13) }
pub struct SM15;
callable! { SM15, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14) }
pub struct SMVRMVRMVRMVRMVR;
callable! { SMVRMVRMVRMVRMVR, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,&*a11,a12,*a13,&*a14,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10, &*a11, a12, *a13, &*a14) }
pub struct SMVtrMVtrMVtrMVtrMVtr;
callable! { SMVtrMVtrMVtrMVtrMVtr, (&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] = v else { unreachable!() }; let mut t2 = Tok::new(*a2); let t2 = &mut t2; let mut t5 = Tok::new(*a5); let t5 = &mut t5; let mut t8 = Tok::new(*a8); let t8 = &mut t8; let mut t11 = Tok::new(*a11); let t11 = &mut t11; let mut t14 = Tok::new(*a14); let t14 = &mut t14; ], (a0,*a1,&*t2,a3,*a4,&*t5,a6,*a7,&*t8,a9,*a10,&*t11,a12,*a13,&*t14,), [*a2 = t2.0; *a5 = t5.0; *a8 = t8.0; *a11 = t11.0; *a14 = t14.0; ], (a0, *a1, &*t2, a3, *a4, &*t5, a6, *a7, &*t8, a9, *a10, &*t11, a12, *a13, &*t14) }
pub struct SRMVRMVRMVRMVRMV;
callable! { SRMVRMVRMVRMVRMV, (&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] = v else { unreachable!() }; ], (&*a0,a1,*a2,&*a3,a4,*a5,&*a6,a7,*a8,&*a9,a10,*a11,&*a12,a13,*a14,), [], (&*a0, a1, *a2, &*a3, a4, *a5, &*a6, a7, *a8, &*a9, a10, *a11, &*a12, a13, *a14) }
pub struct SR15;
callable! { SR15, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,&*a14,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13, &*a14) }
pub struct SV15;
callable! { SV15, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,*a14,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13, *a14) }
pub struct SM16;
callable! { SM16, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15) }
pub struct SRMVRMVRMVRMVRMVR;
callable! { SRMVRMVRMVRMVRMVR, (&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] = v else { unreachable!() }; ], (&*a0,a1,*a2,&*a3,a4,*a5,&*a6,a7,*a8,&*a9,a10,*a11,&*a12,a13,*a14,&*a15,), [], (&*a0, a1, *a2, &*a3, a4, *a5, &*a6, a7, *a8, &*a9, a10, *a11, &*a12, a13, *a14, &*a15) }
pub struct SR16;
callable! { SR16, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,&*a14,&*a15,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13, &*a14, &*a15) }
pub struct SVRMVRMVRMVRMVRMV;
callable! { SVRMVRMVRMVRMVRMV, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,a11,*a12,&*a13,a14,*a15,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10, a11, *a12, &*a13, a14, *a15) }
pub struct SV16;
callable! { SV16, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,*a14,*a15,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13, *a14, *a15) }
pub struct StrMVtrMVtrMVtrMVtrMVtr;
callable! { StrMVtrMVtrMVtrMVtrMVtr, (&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t3 = Tok::new(*a3); let t3 = &mut t3; let mut t6 = Tok::new(*a6); let t6 = &mut t6; let mut t9 = Tok::new(*a9); let t9 = &mut t9; let mut t12 = Tok::new(*a12); let t12 = &mut t12; let mut t15 = Tok::new(*a15); let t15 = &mut t15; ], (&*t0,a1,*a2,&*t3,a4,*a5,&*t6,a7,*a8,&*t9,a10,*a11,&*t12,a13,*a14,&*t15,), [*a0 = t0.0; *a3 = t3.0; *a6 = t6.0; *a9 = t9.0; *a12 = t12.0; *a15 = t15.0; ], (&*t0, a1, *a2, &*t3, a4, *a5, &*t6, a7, *a8, &*t9, a10, *a11, &*t12, a13, *a14, &*t15) }
pub struct SM17;
callable! { SM17, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16) }
pub struct SMVRMVRMVRMVRMVRMV;
callable! { SMVRMVRMVRMVRMVRMV, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,&*a11,a12,*a13,&*a14,a15,*a16,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10, &*a11, a12, *a13, &*a14, a15, *a16) }
pub struct SR17;
callable! { SR17, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,&*a14,&*a15,&*a16,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13, &*a14, &*a15, &*a16) }
pub struct SVRMVRMVRMVRMVRMVR;
callable! { SVRMVRMVRMVRMVRMVR, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,a11,*a12,&*a13,a14,*a15,&*a16,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10, a11, *a12, &*a13, a14, *a15, &*a16) }
pub struct SV17;
callable! { SV17, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,*a14,*a15,*a16,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13, *a14, *a15, *a16) }
pub struct SVtrMVtrMVtrMVtrMVtrMVtr;
callable! { SVtrMVtrMVtrMVtrMVtrMVtr, (u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16] = v else { unreachable!() }; let mut t1 = Tok::new(*a1); let t1 = &mut t1; let mut t4 = Tok::new(*a4); let t4 = &mut t4; let mut t7 = Tok::new(*a7); let t7 = &mut t7; let mut t10 = Tok::new(*a10); let t10 = &mut t10; let mut t13 = Tok::new(*a13); let t13 = &mut t13; let mut t16 = Tok::new(*a16); let t16 = &mut t16; ], (*a0,&*t1,a2,*a3,&*t4,a5,*a6,&*t7,a8,*a9,&*t10,a11,*a12,&*t13,a14,*a15,&*t16,), [*a1 = t1.0; *a4 = t4.0; *a7 = t7.0; *a10 = t10.0; *a13 = t13.0; *a16 = t16.0; ], (*a0, &*t1, a2, *a3, &*t4, a5, *a6, &*t7, a8, *a9, &*t10, a11, *a12, &*t13, a14, *a15, &*t16) }
pub struct SM18;
callable! { SM18, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17) }
pub struct SMVRMVRMVRMVRMVRMVR;
callable! { SMVRMVRMVRMVRMVRMVR, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,&*a11,a12,*a13,&*a14,a15,*a16,&*a17,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10, &*a11, a12, *a13, &*a14, a15, *a16, &*a17) }
pub struct SMVtrMVtrMVtrMVtrMVtrMVtr;
callable! { SMVtrMVtrMVtrMVtrMVtrMVtr, (&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] = v else { unreachable!() }; let mut t2 = Tok::new(*a2); let t2 = &mut t2; let mut t5 = Tok::new(*a5); let t5 = &mut t5; let mut t8 = Tok::new(*a8); let t8 = &mut t8; let mut t11 = Tok::new(*a11); let t11 = &mut t11; let mut t14 = Tok::new(*a14); let t14 = &mut t14; let mut t17 = Tok::new(*a17); let t17 = &mut t17; ], (a0,*a1,&*t2,a3,*a4,&*t5,a6,*a7,&*t8,a9,*a10,&*t11,a12,*a13,&*t14,a15,*a16,&*t17,), [*a2 = t2.0; *a5 = t5.0; *a8 = t8.0; *a11 = t11.0; *a14 = t14.0; *a17 = t17.0; ], (a0, *a1, &*t2, a3, *a4, &*t5, a6, *a7, &*t8, a9, *a10, &*t11, a12, *a13, &*t14, a15, *a16, &*t17) }
pub struct SRMVRMVRMVRMVRMVRMV;
callable! { SRMVRMVRMVRMVRMVRMV, (&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] = v else { unreachable!() }; ], (&*a0,a1,*a2,&*a3,a4,*a5,&*a6,a7,*a8,&*a9,a10,*a11,&*a12,a13,*a14,&*a15,a16,*a17,), [], (&*a0, a1, *a2, &*a3, a4, *a5, &*a6, a7, *a8, &*a9, a10, *a11, &*a12, a13, *a14, &*a15, a16, *a17) }
pub struct SR18;
callable! { SR18, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,&*a14,&*a15,&*a16,&*a17,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13, &*a14, &*a15, &*a16, &*a17) }
pub struct SV18;
callable! { SV18, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,*a14,*a15,*a16,*a17,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13, *a14, *a15, *a16, *a17) }
pub struct SM19;
callable! { SM19, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18) }
pub struct SRMVRMVRMVRMVRMVRMVR;
callable! { SRMVRMVRMVRMVRMVRMVR, (&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] = v else { unreachable!() }; ], (&*a0,a1,*a2,&*a3,a4,*a5,&*a6,a7,*a8,&*a9,a10,*a11,&*a12,a13,*a14,&*a15,a16,*a17,&*a18,), [], (&*a0, a1, *a2, &*a3, a4, *a5, &*a6, a7, *a8, &*a9, a10, *a11, &*a12, a13, *a14, &*a15, a16, *a17, &*a18) }
pub struct SR19;
callable! { SR19, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,&*a14,&*a15,&*a16,&*a17,&*a18,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13, &*a14, &*a15, &*a16, &*a17, &*a18) }
pub struct SVRMVRMVRMVRMVRMVRMV;
callable! { SVRMVRMVRMVRMVRMVRMV, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,a11,*a12,&*a13,a14,*a15,&*a16,a17,*a18,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10, a11, *a12, &*a13, a14, *a15, &*a16, a17, *a18) }
pub struct SV19;
callable! { SV19, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,*a14,*a15,*a16,*a17,*a18,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13, *a14, *a15, *a16, *a17, *a18) }
pub struct StrMVtrMVtrMVtrMVtrMVtrMVtr;
callable! { StrMVtrMVtrMVtrMVtrMVtrMVtr, (&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,&'a mut u64,u64,&'a Tok,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18] = v else { unreachable!() }; let mut t0 = Tok::new(*a0); let t0 = &mut t0; let mut t3 = Tok::new(*a3); let t3 = &mut t3; let mut t6 = Tok::new(*a6); let t6 = &mut t6; let mut t9 = Tok::new(*a9); let t9 = &mut t9; let mut t12 = Tok::new(*a12); let t12 = &mut t12; let mut t15 = Tok::new(*a15); let t15 = &mut t15; let mut t18 = Tok::new(*a18); let t18 = &mut t18; ], (&*t0,a1,*a2,&*t3,a4,*a5,&*t6,a7,*a8,&*t9,a10,*a11,&*t12,a13,*a14,&*t15,a16,*a17,&*t18,), [*a0 = t0.0; *a3 = t3.0; *a6 = t6.0; *a9 = t9.0; *a12 = t12.0; *a15 = t15.0; *a18 = t18.0; ], (&*t0, a1, *a2, &*t3, a4, *a5, &*t6, a7, *a8, &*t9, a10, *a11, &*t12, a13, *a14, &*t15, a16, *a17, &*t18) }
pub struct SM20;
callable! { SM20, (&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,&'a mut u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] = v else { unreachable!() }; ], (a0,a1,a2,a3,a4,a5,a6,a7,a8,a9,a10,a11,a12,a13,a14,a15,a16,a17,a18,a19,), [], (a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19) }
pub struct SMVRMVRMVRMVRMVRMVRMV;
callable! { SMVRMVRMVRMVRMVRMVRMV, (&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] = v else { unreachable!() }; ], (a0,*a1,&*a2,a3,*a4,&*a5,a6,*a7,&*a8,a9,*a10,&*a11,a12,*a13,&*a14,a15,*a16,&*a17,a18,*a19,), [], (a0, *a1, &*a2, a3, *a4, &*a5, a6, *a7, &*a8, a9, *a10, &*a11, a12, *a13, &*a14, a15, *a16, &*a17, a18, *a19) }
pub struct SR20;
callable! { SR20, (&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] = v else { unreachable!() }; ], (&*a0,&*a1,&*a2,&*a3,&*a4,&*a5,&*a6,&*a7,&*a8,&*a9,&*a10,&*a11,&*a12,&*a13,&*a14,&*a15,&*a16,&*a17,&*a18,&*a19,), [], (&*a0, &*a1, &*a2, &*a3, &*a4, &*a5, &*a6, &*a7, &*a8, &*a9, &*a10, &*a11, &*a12, &*a13, &*a14, &*a15, &*a16, &*a17, &*a18, &*a19) }
pub struct SVRMVRMVRMVRMVRMVRMVR;
callable! { SVRMVRMVRMVRMVRMVRMVR, (u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,&'a mut u64,u64,&'a u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] = v else { unreachable!() }; ], (*a0,&*a1,a2,*a3,&*a4,a5,*a6,&*a7,a8,*a9,&*a10,a11,*a12,&*a13,a14,*a15,&*a16,a17,*a18,&*a19,), [], (*a0, &*a1, a2, *a3, &*a4, a5, *a6, &*a7, a8, *a9, &*a10, a11, *a12, &*a13, a14, *a15, &*a16, a17, *a18, &*a19) }
pub struct SV20;
callable! { SV20, (u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,), v, [let [a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19] = v else { unreachable!() }; ], (*a0,*a1,*a2,*a3,*a4,*a5,*a6,*a7,*a8,*a9,*a10,*a11,*a12,*a13,*a14,*a15,*a16,*a17,*a18,*a19,), [], (*a0, *a1, *a2, *a3, *a4, *a5, *a6, *a7, *a8, *a9, *a10, *a11, *a12, *a13, *a14, *a15, *a16, *a17, *a18, *a19) }

fn cases0(v: &mut Vec<Case>) {
    v.push(Case { name: "0/0", modes: "", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_0, PhantomData)) } });
    v.push(Case { name: "V/0", modes: "V", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V, PhantomData)) } });
    v.push(Case { name: "V/1", modes: "V", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "R/0", modes: "R", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R, PhantomData)) } });
    v.push(Case { name: "R/1", modes: "R", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "M/0", modes: "M", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_M, PhantomData)) } });
    v.push(Case { name: "M/1", modes: "M", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "tv/0", modes: "v", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>(f_tv, PhantomData)) } });
    v.push(Case { name: "tv/1", modes: "v", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tv.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tr/0", modes: "r", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Str>(f_tr, PhantomData)) } });
    v.push(Case { name: "tr/1", modes: "r", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_tr.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tm/0", modes: "m", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stm>(f_tm, PhantomData)) } });
    v.push(Case { name: "tm/1", modes: "m", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_tm.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "V2/0", modes: "VV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>(f_V2, PhantomData)) } });
    v.push(Case { name: "V2/1", modes: "VV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V2.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V2/2", modes: "VV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V2.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "VR/0", modes: "VR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVR>(f_VR, PhantomData)) } });
    v.push(Case { name: "VR/1", modes: "VR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_VR.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VR/2", modes: "VR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_VR.bind_value(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "VM/0", modes: "VM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVM>(f_VM, PhantomData)) } });
    v.push(Case { name: "VM/1", modes: "VM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_VM.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VM/2", modes: "VM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_VM.bind_value(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "Vtv/0", modes: "Vv", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVtv>(f_Vtv, PhantomData)) } });
    v.push(Case { name: "Vtv/1", modes: "Vv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>(f_Vtv.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "Vtv/2", modes: "Vv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_Vtv.bind_value(h[0]).bind_value(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "Vtr/0", modes: "Vr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVtr>(f_Vtr, PhantomData)) } });
    v.push(Case { name: "Vtr/1", modes: "Vr", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Str>(f_Vtr.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "Vtr/2", modes: "Vr", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_Vtr.bind_value(h[0]).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "Vtm/0", modes: "Vm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVtm>(f_Vtm, PhantomData)) } });
    v.push(Case { name: "Vtm/1", modes: "Vm", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stm>(f_Vtm.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "Vtm/2", modes: "Vm", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_Vtm.bind_value(h[0]).bind_mut(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "RV/0", modes: "RV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRV>(f_RV, PhantomData)) } });
    v.push(Case { name: "RV/1", modes: "RV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_RV.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RV/2", modes: "RV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_RV.bind_ref(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "R2/0", modes: "RR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR2>(f_R2, PhantomData)) } });
    v.push(Case { name: "R2/1", modes: "RR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R2.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R2/2", modes: "RR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R2.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "RM/0", modes: "RM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRM>(f_RM, PhantomData)) } });
    v.push(Case { name: "RM/1", modes: "RM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_RM.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RM/2", modes: "RM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_RM.bind_ref(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "Rtv/0", modes: "Rv", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRtv>(f_Rtv, PhantomData)) } });
    v.push(Case { name: "Rtv/1", modes: "Rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>(f_Rtv.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "Rtv/2", modes: "Rv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_Rtv.bind_ref(h[0]).bind_value(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "Rtr/0", modes: "Rr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRtr>(f_Rtr, PhantomData)) } });
    v.push(Case { name: "Rtr/1", modes: "Rr", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Str>(f_Rtr.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "Rtr/2", modes: "Rr", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_Rtr.bind_ref(h[0]).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "Rtm/0", modes: "Rm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRtm>(f_Rtm, PhantomData)) } });
    v.push(Case { name: "Rtm/1", modes: "Rm", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stm>(f_Rtm.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "Rtm/2", modes: "Rm", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_Rtm.bind_ref(h[0]).bind_mut(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "MV/0", modes: "MV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMV>(f_MV, PhantomData)) } });
    v.push(Case { name: "MV/1", modes: "MV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_MV.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MV/2", modes: "MV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MV.bind_mut(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "MR/0", modes: "MR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>(f_MR, PhantomData)) } });
    v.push(Case { name: "MR/1", modes: "MR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_MR.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MR/2", modes: "MR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MR.bind_mut(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "M2/0", modes: "MM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM2>(f_M2, PhantomData)) } });
    v.push(Case { name: "M2/1", modes: "MM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M2.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M2/2", modes: "MM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M2.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "Mtv/0", modes: "Mv", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMtv>(f_Mtv, PhantomData)) } });
    v.push(Case { name: "Mtv/1", modes: "Mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>(f_Mtv.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "Mtv/2", modes: "Mv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_Mtv.bind_mut(h[0]).bind_value(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "Mtr/0", modes: "Mr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMtr>(f_Mtr, PhantomData)) } });
    v.push(Case { name: "Mtr/1", modes: "Mr", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Str>(f_Mtr.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "Mtr/2", modes: "Mr", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_Mtr.bind_mut(h[0]).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "Mtm/0", modes: "Mm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMtm>(f_Mtm, PhantomData)) } });
    v.push(Case { name: "Mtm/1", modes: "Mm", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stm>(f_Mtm.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "Mtm/2", modes: "Mm", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_Mtm.bind_mut(h[0]).bind_mut(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tvV/0", modes: "vV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StvV>(f_tvV, PhantomData)) } });
    v.push(Case { name: "tvV/1", modes: "vV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>(f_tvV.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tvV/2", modes: "vV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tvV.bind_value(Tok::new(h[0])).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "tvR/0", modes: "vR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StvR>(f_tvR, PhantomData)) } });
    v.push(Case { name: "tvR/1", modes: "vR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>(f_tvR.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tvR/2", modes: "vR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tvR.bind_value(Tok::new(h[0])).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "tvM/0", modes: "vM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StvM>(f_tvM, PhantomData)) } });
    v.push(Case { name: "tvM/1", modes: "vM", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>(f_tvM.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tvM/2", modes: "vM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tvM.bind_value(Tok::new(h[0])).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "tv2/0", modes: "vv", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv2>(f_tv2, PhantomData)) } });
    v.push(Case { name: "tv2/1", modes: "vv", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>(f_tv2.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tv2/2", modes: "vv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tv2.bind_value(Tok::new(h[0])).bind_value(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tvtr/0", modes: "vr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stvtr>(f_tvtr, PhantomData)) } });
    v.push(Case { name: "tvtr/1", modes: "vr", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Str>(f_tvtr.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tvtr/2", modes: "vr", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tvtr.bind_value(Tok::new(h[0])).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tvtm/0", modes: "vm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stvtm>(f_tvtm, PhantomData)) } });
    v.push(Case { name: "tvtm/1", modes: "vm", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stm>(f_tvtm.bind_value(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tvtm/2", modes: "vm", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tvtm.bind_value(Tok::new(h[0])).bind_mut(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "trV/0", modes: "rV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StrV>(f_trV, PhantomData)) } });
    v.push(Case { name: "trV/1", modes: "rV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_trV.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "trV/2", modes: "rV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_trV.bind_ref(Tok::new(h[0])).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "trR/0", modes: "rR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StrR>(f_trR, PhantomData)) } });
    v.push(Case { name: "trR/1", modes: "rR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_trR.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "trR/2", modes: "rR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_trR.bind_ref(Tok::new(h[0])).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "trM/0", modes: "rM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StrM>(f_trM, PhantomData)) } });
    v.push(Case { name: "trM/1", modes: "rM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_trM.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "trM/2", modes: "rM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_trM.bind_ref(Tok::new(h[0])).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "trtv/0", modes: "rv", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Strtv>(f_trtv, PhantomData)) } });
    v.push(Case { name: "trtv/1", modes: "rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>(f_trtv.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "trtv/2", modes: "rv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_trtv.bind_ref(Tok::new(h[0])).bind_value(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tr2/0", modes: "rr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Str2>(f_tr2, PhantomData)) } });
    v.push(Case { name: "tr2/1", modes: "rr", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Str>(f_tr2.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tr2/2", modes: "rr", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_tr2.bind_ref(Tok::new(h[0])).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "trtm/0", modes: "rm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Strtm>(f_trtm, PhantomData)) } });
    v.push(Case { name: "trtm/1", modes: "rm", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stm>(f_trtm.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "trtm/2", modes: "rm", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_trtm.bind_ref(Tok::new(h[0])).bind_mut(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tmV/0", modes: "mV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StmV>(f_tmV, PhantomData)) } });
    v.push(Case { name: "tmV/1", modes: "mV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_tmV.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tmV/2", modes: "mV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_tmV.bind_mut(Tok::new(h[0])).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "tmR/0", modes: "mR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StmR>(f_tmR, PhantomData)) } });
    v.push(Case { name: "tmR/1", modes: "mR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_tmR.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tmR/2", modes: "mR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_tmR.bind_mut(Tok::new(h[0])).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "tmM/0", modes: "mM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StmM>(f_tmM, PhantomData)) } });
    v.push(Case { name: "tmM/1", modes: "mM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_tmM.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tmM/2", modes: "mM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_tmM.bind_mut(Tok::new(h[0])).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "tmtv/0", modes: "mv", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stmtv>(f_tmtv, PhantomData)) } });
    v.push(Case { name: "tmtv/1", modes: "mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>(f_tmtv.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tmtv/2", modes: "mv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tmtv.bind_mut(Tok::new(h[0])).bind_value(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tmtr/0", modes: "mr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stmtr>(f_tmtr, PhantomData)) } });
    v.push(Case { name: "tmtr/1", modes: "mr", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Str>(f_tmtr.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tmtr/2", modes: "mr", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_tmtr.bind_mut(Tok::new(h[0])).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tm2/0", modes: "mm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stm2>(f_tm2, PhantomData)) } });
}

fn cases1(v: &mut Vec<Case>) {
    v.push(Case { name: "tm2/1", modes: "mm", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stm>(f_tm2.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tm2/2", modes: "mm", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_tm2.bind_mut(Tok::new(h[0])).bind_mut(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "V3/0", modes: "VVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV3>(f_V3, PhantomData)) } });
    v.push(Case { name: "V3/1", modes: "VVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>(f_V3.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V3/2", modes: "VVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V3.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "V3/3", modes: "VVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V3.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "V2R/0", modes: "VVR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2R>(f_V2R, PhantomData)) } });
    v.push(Case { name: "V2R/1", modes: "VVR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVR>(f_V2R.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V2R/2", modes: "VVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_V2R.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "V2R/3", modes: "VVR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V2R.bind_value(h[0]).bind_value(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "V2M/0", modes: "VVM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2M>(f_V2M, PhantomData)) } });
    v.push(Case { name: "V2M/1", modes: "VVM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVM>(f_V2M.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V2M/2", modes: "VVM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_V2M.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "V2M/3", modes: "VVM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_V2M.bind_value(h[0]).bind_value(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "VRV/0", modes: "VRV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVRV>(f_VRV, PhantomData)) } });
    v.push(Case { name: "VRV/1", modes: "VRV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRV>(f_VRV.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VRV/2", modes: "VRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_VRV.bind_value(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "VRV/3", modes: "VRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_VRV.bind_value(h[0]).bind_ref(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "VR2/0", modes: "VRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVR2>(f_VR2, PhantomData)) } });
    v.push(Case { name: "VR2/1", modes: "VRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR2>(f_VR2.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VR2/2", modes: "VRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_VR2.bind_value(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "VR2/3", modes: "VRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_VR2.bind_value(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "VRM/0", modes: "VRM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVRM>(f_VRM, PhantomData)) } });
    v.push(Case { name: "VRM/1", modes: "VRM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRM>(f_VRM.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VRM/2", modes: "VRM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_VRM.bind_value(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "VRM/3", modes: "VRM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_VRM.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "VMV/0", modes: "VMV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVMV>(f_VMV, PhantomData)) } });
    v.push(Case { name: "VMV/1", modes: "VMV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMV>(f_VMV.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VMV/2", modes: "VMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_VMV.bind_value(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "VMV/3", modes: "VMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_VMV.bind_value(h[0]).bind_mut(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "VMR/0", modes: "VMR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVMR>(f_VMR, PhantomData)) } });
    v.push(Case { name: "VMR/1", modes: "VMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>(f_VMR.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VMR/2", modes: "VMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_VMR.bind_value(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "VMR/3", modes: "VMR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_VMR.bind_value(h[0]).bind_mut(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "VM2/0", modes: "VMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVM2>(f_VM2, PhantomData)) } });
    v.push(Case { name: "VM2/1", modes: "VMM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM2>(f_VM2.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VM2/2", modes: "VMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_VM2.bind_value(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "VM2/3", modes: "VMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_VM2.bind_value(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "RV2/0", modes: "RVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRV2>(f_RV2, PhantomData)) } });
    v.push(Case { name: "RV2/1", modes: "RVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>(f_RV2.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RV2/2", modes: "RVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_RV2.bind_ref(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "RV2/3", modes: "RVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_RV2.bind_ref(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "RVR/0", modes: "RVR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRVR>(f_RVR, PhantomData)) } });
    v.push(Case { name: "RVR/1", modes: "RVR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVR>(f_RVR.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RVR/2", modes: "RVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_RVR.bind_ref(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "RVR/3", modes: "RVR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_RVR.bind_ref(h[0]).bind_value(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "RVM/0", modes: "RVM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRVM>(f_RVM, PhantomData)) } });
    v.push(Case { name: "RVM/1", modes: "RVM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVM>(f_RVM.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RVM/2", modes: "RVM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_RVM.bind_ref(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "RVM/3", modes: "RVM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_RVM.bind_ref(h[0]).bind_value(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "R2V/0", modes: "RRV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR2V>(f_R2V, PhantomData)) } });
    v.push(Case { name: "R2V/1", modes: "RRV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRV>(f_R2V.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R2V/2", modes: "RRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_R2V.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "R2V/3", modes: "RRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R2V.bind_ref(h[0]).bind_ref(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "R3/0", modes: "RRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR3>(f_R3, PhantomData)) } });
    v.push(Case { name: "R3/1", modes: "RRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR2>(f_R3.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R3/2", modes: "RRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R3.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "R3/3", modes: "RRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R3.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "R2M/0", modes: "RRM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR2M>(f_R2M, PhantomData)) } });
    v.push(Case { name: "R2M/1", modes: "RRM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRM>(f_R2M.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R2M/2", modes: "RRM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>(f_R2M.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "R2M/3", modes: "RRM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_R2M.bind_ref(h[0]).bind_ref(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "RMV/0", modes: "RMV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRMV>(f_RMV, PhantomData)) } });
    v.push(Case { name: "RMV/1", modes: "RMV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMV>(f_RMV.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RMV/2", modes: "RMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_RMV.bind_ref(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "RMV/3", modes: "RMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_RMV.bind_ref(h[0]).bind_mut(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "RMR/0", modes: "RMR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRMR>(f_RMR, PhantomData)) } });
    v.push(Case { name: "RMR/1", modes: "RMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>(f_RMR.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RMR/2", modes: "RMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_RMR.bind_ref(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "RMR/3", modes: "RMR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_RMR.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "RM2/0", modes: "RMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRM2>(f_RM2, PhantomData)) } });
    v.push(Case { name: "RM2/1", modes: "RMM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM2>(f_RM2.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RM2/2", modes: "RMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_RM2.bind_ref(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "RM2/3", modes: "RMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_RM2.bind_ref(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "MV2/0", modes: "MVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMV2>(f_MV2, PhantomData)) } });
    v.push(Case { name: "MV2/1", modes: "MVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>(f_MV2.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MV2/2", modes: "MVV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_MV2.bind_mut(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "MV2/3", modes: "MVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MV2.bind_mut(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "MVR/0", modes: "MVR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMVR>(f_MVR, PhantomData)) } });
    v.push(Case { name: "MVR/1", modes: "MVR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVR>(f_MVR.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MVR/2", modes: "MVR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_MVR.bind_mut(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "MVR/3", modes: "MVR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MVR.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "MVM/0", modes: "MVM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMVM>(f_MVM, PhantomData)) } });
    v.push(Case { name: "MVM/1", modes: "MVM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVM>(f_MVM.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MVM/2", modes: "MVM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_MVM.bind_mut(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "MVM/3", modes: "MVM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MVM.bind_mut(h[0]).bind_value(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "MRV/0", modes: "MRV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMRV>(f_MRV, PhantomData)) } });
    v.push(Case { name: "MRV/1", modes: "MRV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRV>(f_MRV.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MRV/2", modes: "MRV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_MRV.bind_mut(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "MRV/3", modes: "MRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MRV.bind_mut(h[0]).bind_ref(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "MR2/0", modes: "MRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR2>(f_MR2, PhantomData)) } });
    v.push(Case { name: "MR2/1", modes: "MRR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR2>(f_MR2.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MR2/2", modes: "MRR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_MR2.bind_mut(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "MR2/3", modes: "MRR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MR2.bind_mut(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "MRM/0", modes: "MRM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMRM>(f_MRM, PhantomData)) } });
    v.push(Case { name: "MRM/1", modes: "MRM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRM>(f_MRM.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MRM/2", modes: "MRM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_MRM.bind_mut(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "MRM/3", modes: "MRM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_MRM.bind_mut(h[0]).bind_ref(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "M2V/0", modes: "MMV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM2V>(f_M2V, PhantomData)) } });
    v.push(Case { name: "M2V/1", modes: "MMV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMV>(f_M2V.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M2V/2", modes: "MMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_M2V.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "M2V/3", modes: "MMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M2V.bind_mut(h[0]).bind_mut(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "M2R/0", modes: "MMR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM2R>(f_M2R, PhantomData)) } });
    v.push(Case { name: "M2R/1", modes: "MMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>(f_M2R.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M2R/2", modes: "MMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>(f_M2R.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "M2R/3", modes: "MMR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M2R.bind_mut(h[0]).bind_mut(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "M3/0", modes: "MMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM3>(f_M3, PhantomData)) } });
    v.push(Case { name: "M3/1", modes: "MMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM2>(f_M3.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M3/2", modes: "MMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M3.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "M3/3", modes: "MMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M3.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "V4/0", modes: "VVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV4>(f_V4, PhantomData)) } });
    v.push(Case { name: "V4/1", modes: "VVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV3>(f_V4.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V4/2", modes: "VVVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>(f_V4.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "V4/3", modes: "VVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V4.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "V4/4", modes: "VVVV", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V4.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "R4/0", modes: "RRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR4>(f_R4, PhantomData)) } });
    v.push(Case { name: "R4/1", modes: "RRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR3>(f_R4.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R4/2", modes: "RRRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR2>(f_R4.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "R4/3", modes: "RRRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R4.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
}

fn cases2(v: &mut Vec<Case>) {
    v.push(Case { name: "R4/4", modes: "RRRR", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R4.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]), PhantomData)) } });
    v.push(Case { name: "M4/0", modes: "MMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM4>(f_M4, PhantomData)) } });
    v.push(Case { name: "M4/1", modes: "MMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM3>(f_M4.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M4/2", modes: "MMMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM2>(f_M4.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "M4/3", modes: "MMMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M4.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "M4/4", modes: "MMMM", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M4.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "V5/0", modes: "VVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV5>(f_V5, PhantomData)) } });
    v.push(Case { name: "V5/1", modes: "VVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV4>(f_V5.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V5/2", modes: "VVVVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV3>(f_V5.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "V5/4", modes: "VVVVV", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V5.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "V5/5", modes: "VVVVV", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V5.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "R5/0", modes: "RRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR5>(f_R5, PhantomData)) } });
    v.push(Case { name: "R5/1", modes: "RRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR4>(f_R5.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R5/2", modes: "RRRRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR3>(f_R5.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "R5/4", modes: "RRRRR", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R5.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]), PhantomData)) } });
    v.push(Case { name: "R5/5", modes: "RRRRR", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R5.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "M5/0", modes: "MMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM5>(f_M5, PhantomData)) } });
    v.push(Case { name: "M5/1", modes: "MMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM4>(f_M5.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M5/2", modes: "MMMMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM3>(f_M5.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "M5/4", modes: "MMMMM", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M5.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "M5/5", modes: "MMMMM", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M5.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]), PhantomData)) } });
    v.push(Case { name: "V6/0", modes: "VVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV6>(f_V6, PhantomData)) } });
    v.push(Case { name: "V6/1", modes: "VVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV5>(f_V6.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V6/3", modes: "VVVVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV3>(f_V6.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "V6/5", modes: "VVVVVV", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V6.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "V6/6", modes: "VVVVVV", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V6.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "R6/0", modes: "RRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR6>(f_R6, PhantomData)) } });
    v.push(Case { name: "R6/1", modes: "RRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR5>(f_R6.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R6/3", modes: "RRRRRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR3>(f_R6.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "R6/5", modes: "RRRRRR", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R6.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "R6/6", modes: "RRRRRR", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R6.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]), PhantomData)) } });
    v.push(Case { name: "M6/0", modes: "MMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM6>(f_M6, PhantomData)) } });
    v.push(Case { name: "M6/1", modes: "MMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM5>(f_M6.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M6/3", modes: "MMMMMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM3>(f_M6.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "M6/5", modes: "MMMMMM", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M6.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]), PhantomData)) } });
    v.push(Case { name: "M6/6", modes: "MMMMMM", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M6.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "V7/0", modes: "VVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV7>(f_V7, PhantomData)) } });
    v.push(Case { name: "V7/1", modes: "VVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV6>(f_V7.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V7/3", modes: "VVVVVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV4>(f_V7.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "V7/6", modes: "VVVVVVV", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V7.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "V7/7", modes: "VVVVVVV", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V7.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "R7/0", modes: "RRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR7>(f_R7, PhantomData)) } });
    v.push(Case { name: "R7/1", modes: "RRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR6>(f_R7.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R7/3", modes: "RRRRRRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR4>(f_R7.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "R7/6", modes: "RRRRRRR", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R7.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]), PhantomData)) } });
    v.push(Case { name: "R7/7", modes: "RRRRRRR", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R7.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]), PhantomData)) } });
    v.push(Case { name: "M7/0", modes: "MMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM7>(f_M7, PhantomData)) } });
    v.push(Case { name: "M7/1", modes: "MMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM6>(f_M7.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M7/3", modes: "MMMMMMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM4>(f_M7.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "M7/6", modes: "MMMMMMM", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M7.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "M7/7", modes: "MMMMMMM", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M7.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]), PhantomData)) } });
    v.push(Case { name: "V8/0", modes: "VVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(f_V8, PhantomData)) } });
    v.push(Case { name: "V8/1", modes: "VVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV7>(f_V8.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V8/4", modes: "VVVVVVVV", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV4>(f_V8.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "V8/7", modes: "VVVVVVVV", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V8.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "V8/8", modes: "VVVVVVVV", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V8.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "R8/0", modes: "RRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR8>(f_R8, PhantomData)) } });
    v.push(Case { name: "R8/1", modes: "RRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR7>(f_R8.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R8/4", modes: "RRRRRRRR", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR4>(f_R8.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]), PhantomData)) } });
    v.push(Case { name: "R8/7", modes: "RRRRRRRR", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R8.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]), PhantomData)) } });
    v.push(Case { name: "R8/8", modes: "RRRRRRRR", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R8.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]), PhantomData)) } });
    v.push(Case { name: "M8/0", modes: "MMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM8>(f_M8, PhantomData)) } });
    v.push(Case { name: "M8/1", modes: "MMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM7>(f_M8.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M8/4", modes: "MMMMMMMM", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM4>(f_M8.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "M8/7", modes: "MMMMMMMM", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M8.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]), PhantomData)) } });
    v.push(Case { name: "M8/8", modes: "MMMMMMMM", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M8.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "V9/0", modes: "VVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(f_V9, PhantomData)) } });
    v.push(Case { name: "V9/1", modes: "VVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(f_V9.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V9/4", modes: "VVVVVVVVV", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV5>(f_V9.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "V9/8", modes: "VVVVVVVVV", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V9.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "V9/9", modes: "VVVVVVVVV", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V9.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "R9/0", modes: "RRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR9>(f_R9, PhantomData)) } });
    v.push(Case { name: "R9/1", modes: "RRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR8>(f_R9.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R9/4", modes: "RRRRRRRRR", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR5>(f_R9.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]), PhantomData)) } });
    v.push(Case { name: "R9/8", modes: "RRRRRRRRR", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R9.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]), PhantomData)) } });
    v.push(Case { name: "R9/9", modes: "RRRRRRRRR", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_R9.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "M9/0", modes: "MMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM9>(f_M9, PhantomData)) } });
    v.push(Case { name: "M9/1", modes: "MMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM8>(f_M9.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M9/4", modes: "MMMMMMMMM", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM5>(f_M9.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "M9/8", modes: "MMMMMMMMM", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M9.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "M9/9", modes: "MMMMMMMMM", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>(f_M9.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]).bind_mut(h[8]), PhantomData)) } });
    v.push(Case { name: "V10/0", modes: "VVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV10>(f_V10, PhantomData)) } });
    v.push(Case { name: "V10/1", modes: "VVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(f_V10.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V10/5", modes: "VVVVVVVVVV", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV5>(f_V10.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "V10/9", modes: "VVVVVVVVVV", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V10.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "V10/10", modes: "VVVVVVVVVV", bound: 10, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V10.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]), PhantomData)) } });
    v.push(Case { name: "R10/0", modes: "RRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR10>(f_R10, PhantomData)) } });
    v.push(Case { name: "R10/1", modes: "RRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR9>(f_R10.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R10/5", modes: "RRRRRRRRRR", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR5>(f_R10.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "R10/9", modes: "RRRRRRRRRR", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>(f_R10.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "M10/0", modes: "MMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM10>(f_M10, PhantomData)) } });
    v.push(Case { name: "M10/1", modes: "MMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM9>(f_M10.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M10/5", modes: "MMMMMMMMMM", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM5>(f_M10.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]), PhantomData)) } });
    v.push(Case { name: "M10/9", modes: "MMMMMMMMMM", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>(f_M10.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]).bind_mut(h[8]), PhantomData)) } });
    v.push(Case { name: "V11/0", modes: "VVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV11>(f_V11, PhantomData)) } });
    v.push(Case { name: "V11/1", modes: "VVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV10>(f_V11.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V11/5", modes: "VVVVVVVVVVV", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV6>(f_V11.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "V11/10", modes: "VVVVVVVVVVV", bound: 10, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V11.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]), PhantomData)) } });
    v.push(Case { name: "V11/11", modes: "VVVVVVVVVVV", bound: 11, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V11.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]), PhantomData)) } });
    v.push(Case { name: "R11/0", modes: "RRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR11>(f_R11, PhantomData)) } });
    v.push(Case { name: "R11/1", modes: "RRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR10>(f_R11.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R11/5", modes: "RRRRRRRRRRR", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR6>(f_R11.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "M11/0", modes: "MMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM11>(f_M11, PhantomData)) } });
    v.push(Case { name: "M11/1", modes: "MMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM10>(f_M11.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M11/5", modes: "MMMMMMMMMMM", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM6>(f_M11.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]), PhantomData)) } });
    v.push(Case { name: "V12/0", modes: "VVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV12>(f_V12, PhantomData)) } });
    v.push(Case { name: "V12/1", modes: "VVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV11>(f_V12.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V12/6", modes: "VVVVVVVVVVVV", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV6>(f_V12.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "V12/11", modes: "VVVVVVVVVVVV", bound: 11, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V12.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]), PhantomData)) } });
    v.push(Case { name: "V12/12", modes: "VVVVVVVVVVVV", bound: 12, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(f_V12.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]), PhantomData)) } });
    v.push(Case { name: "R12/0", modes: "RRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR12>(f_R12, PhantomData)) } });
    v.push(Case { name: "R12/1", modes: "RRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR11>(f_R12.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R12/6", modes: "RRRRRRRRRRRR", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR6>(f_R12.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]), PhantomData)) } });
    v.push(Case { name: "M12/0", modes: "MMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM12>(f_M12, PhantomData)) } });
    v.push(Case { name: "M12/1", modes: "MMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM11>(f_M12.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M12/6", modes: "MMMMMMMMMMMM", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM6>(f_M12.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "V13/0", modes: "VVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV13>(f_V13, PhantomData)) } });
    v.push(Case { name: "V13/1", modes: "VVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV12>(f_V13.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V13/6", modes: "VVVVVVVVVVVVV", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV7>(f_V13.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]), PhantomData)) } });
}

fn cases3(v: &mut Vec<Case>) {
    v.push(Case { name: "V13/12", modes: "VVVVVVVVVVVVV", bound: 12, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(f_V13.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]), PhantomData)) } });
    v.push(Case { name: "R13/0", modes: "RRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR13>(f_R13, PhantomData)) } });
    v.push(Case { name: "R13/1", modes: "RRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR12>(f_R13.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R13/6", modes: "RRRRRRRRRRRRR", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR7>(f_R13.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]), PhantomData)) } });
    v.push(Case { name: "M13/0", modes: "MMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM13>(f_M13, PhantomData)) } });
    v.push(Case { name: "M13/1", modes: "MMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM12>(f_M13.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M13/6", modes: "MMMMMMMMMMMMM", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM7>(f_M13.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "V14/0", modes: "VVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV14>(f_V14, PhantomData)) } });
    v.push(Case { name: "V14/1", modes: "VVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV13>(f_V14.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V14/7", modes: "VVVVVVVVVVVVVV", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV7>(f_V14.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "R14/0", modes: "RRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR14>(f_R14, PhantomData)) } });
    v.push(Case { name: "R14/1", modes: "RRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR13>(f_R14.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R14/7", modes: "RRRRRRRRRRRRRR", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR7>(f_R14.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]), PhantomData)) } });
    v.push(Case { name: "M14/0", modes: "MMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM14>(f_M14, PhantomData)) } });
    v.push(Case { name: "M14/1", modes: "MMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM13>(f_M14.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M14/7", modes: "MMMMMMMMMMMMMM", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM7>(f_M14.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]), PhantomData)) } });
    v.push(Case { name: "V15/0", modes: "VVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV15>(f_V15, PhantomData)) } });
    v.push(Case { name: "V15/1", modes: "VVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV14>(f_V15.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V15/7", modes: "VVVVVVVVVVVVVVV", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(f_V15.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "R15/0", modes: "RRRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR15>(f_R15, PhantomData)) } });
    v.push(Case { name: "R15/1", modes: "RRRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR14>(f_R15.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R15/7", modes: "RRRRRRRRRRRRRRR", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR8>(f_R15.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]), PhantomData)) } });
    v.push(Case { name: "M15/0", modes: "MMMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM15>(f_M15, PhantomData)) } });
    v.push(Case { name: "M15/1", modes: "MMMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM14>(f_M15.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M15/7", modes: "MMMMMMMMMMMMMMM", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM8>(f_M15.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]), PhantomData)) } });
    v.push(Case { name: "V16/0", modes: "VVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV16>(f_V16, PhantomData)) } });
    v.push(Case { name: "V16/1", modes: "VVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV15>(f_V16.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V16/8", modes: "VVVVVVVVVVVVVVVV", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(f_V16.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "R16/0", modes: "RRRRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR16>(f_R16, PhantomData)) } });
    v.push(Case { name: "R16/1", modes: "RRRRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR15>(f_R16.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R16/8", modes: "RRRRRRRRRRRRRRRR", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR8>(f_R16.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]), PhantomData)) } });
    v.push(Case { name: "M16/0", modes: "MMMMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM16>(f_M16, PhantomData)) } });
    v.push(Case { name: "M16/1", modes: "MMMMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM15>(f_M16.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M16/8", modes: "MMMMMMMMMMMMMMMM", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM8>(f_M16.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "V17/0", modes: "VVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV17>(f_V17, PhantomData)) } });
    v.push(Case { name: "V17/1", modes: "VVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV16>(f_V17.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V17/8", modes: "VVVVVVVVVVVVVVVVV", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(f_V17.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "R17/0", modes: "RRRRRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR17>(f_R17, PhantomData)) } });
    v.push(Case { name: "R17/1", modes: "RRRRRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR16>(f_R17.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R17/8", modes: "RRRRRRRRRRRRRRRRR", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR9>(f_R17.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]), PhantomData)) } });
    v.push(Case { name: "M17/0", modes: "MMMMMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM17>(f_M17, PhantomData)) } });
    v.push(Case { name: "M17/1", modes: "MMMMMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM16>(f_M17.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M17/8", modes: "MMMMMMMMMMMMMMMMM", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM9>(f_M17.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "V18/0", modes: "VVVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV18>(f_V18, PhantomData)) } });
    v.push(Case { name: "V18/1", modes: "VVVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV17>(f_V18.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V18/9", modes: "VVVVVVVVVVVVVVVVVV", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(f_V18.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "R18/0", modes: "RRRRRRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR18>(f_R18, PhantomData)) } });
    v.push(Case { name: "R18/1", modes: "RRRRRRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR17>(f_R18.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R18/9", modes: "RRRRRRRRRRRRRRRRRR", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR9>(f_R18.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "M18/0", modes: "MMMMMMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM18>(f_M18, PhantomData)) } });
    v.push(Case { name: "M18/1", modes: "MMMMMMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM17>(f_M18.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M18/9", modes: "MMMMMMMMMMMMMMMMMM", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM9>(f_M18.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]).bind_mut(h[8]), PhantomData)) } });
    v.push(Case { name: "V19/0", modes: "VVVVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV19>(f_V19, PhantomData)) } });
    v.push(Case { name: "V19/1", modes: "VVVVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV18>(f_V19.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V19/9", modes: "VVVVVVVVVVVVVVVVVVV", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV10>(f_V19.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "R19/0", modes: "RRRRRRRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR19>(f_R19, PhantomData)) } });
    v.push(Case { name: "R19/1", modes: "RRRRRRRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR18>(f_R19.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R19/9", modes: "RRRRRRRRRRRRRRRRRRR", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR10>(f_R19.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "M19/0", modes: "MMMMMMMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM19>(f_M19, PhantomData)) } });
    v.push(Case { name: "M19/1", modes: "MMMMMMMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM18>(f_M19.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M19/9", modes: "MMMMMMMMMMMMMMMMMMM", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM10>(f_M19.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]).bind_mut(h[8]), PhantomData)) } });
    v.push(Case { name: "V20/0", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV20>(f_V20, PhantomData)) } });
    v.push(Case { name: "V20/1", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV19>(f_V20.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "V20/2", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV18>(f_V20.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "V20/3", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV17>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "V20/4", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV16>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "V20/5", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV15>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "V20/6", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV14>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "V20/7", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV13>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "V20/8", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV12>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "V20/9", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV11>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "V20/10", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 10, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV10>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]), PhantomData)) } });
    v.push(Case { name: "V20/11", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 11, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]), PhantomData)) } });
    v.push(Case { name: "V20/12", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 12, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(f_V20.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]), PhantomData)) } });
    v.push(Case { name: "R20/0", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR20>(f_R20, PhantomData)) } });
    v.push(Case { name: "R20/1", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR19>(f_R20.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "R20/2", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR18>(f_R20.bind_ref(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "R20/3", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR17>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "R20/4", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR16>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]), PhantomData)) } });
    v.push(Case { name: "R20/5", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR15>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "R20/6", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR14>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]), PhantomData)) } });
    v.push(Case { name: "R20/7", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR13>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]), PhantomData)) } });
    v.push(Case { name: "R20/8", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR12>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]), PhantomData)) } });
    v.push(Case { name: "R20/9", modes: "RRRRRRRRRRRRRRRRRRRR", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR11>(f_R20.bind_ref(h[0]).bind_ref(h[1]).bind_ref(h[2]).bind_ref(h[3]).bind_ref(h[4]).bind_ref(h[5]).bind_ref(h[6]).bind_ref(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "M20/0", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM20>(f_M20, PhantomData)) } });
    v.push(Case { name: "M20/1", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM19>(f_M20.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "M20/2", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM18>(f_M20.bind_mut(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "M20/3", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM17>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "M20/4", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM16>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "M20/5", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM15>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]), PhantomData)) } });
    v.push(Case { name: "M20/6", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM14>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "M20/7", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM13>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]), PhantomData)) } });
    v.push(Case { name: "M20/8", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM12>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "M20/9", modes: "MMMMMMMMMMMMMMMMMMMM", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM11>(f_M20.bind_mut(h[0]).bind_mut(h[1]).bind_mut(h[2]).bind_mut(h[3]).bind_mut(h[4]).bind_mut(h[5]).bind_mut(h[6]).bind_mut(h[7]).bind_mut(h[8]), PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/0", modes: "VRMvrm", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVRMtvtrtm>(f_VRMtvtrtm, PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/1", modes: "VRMvrm", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRMtvtrtm>(f_VRMtvtrtm.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/2", modes: "VRMvrm", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMtvtrtm>(f_VRMtvtrtm.bind_value(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/3", modes: "VRMvrm", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stvtrtm>(f_VRMtvtrtm.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/4", modes: "VRMvrm", bound: 4, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Strtm>(f_VRMtvtrtm.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(Tok::new(h[3])), PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/5", modes: "VRMvrm", bound: 5, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stm>(f_VRMtvtrtm.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(Tok::new(h[3])).bind_ref(Tok::new(h[4])), PhantomData)) } });
    v.push(Case { name: "VRMtvtrtm/6", modes: "VRMvrm", bound: 6, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_VRMtvtrtm.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(Tok::new(h[3])).bind_ref(Tok::new(h[4])).bind_mut(Tok::new(h[5])), PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/0", modes: "mrvMRV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StmtrtvMRV>(f_tmtrtvMRV, PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/1", modes: "mrvMRV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, StrtvMRV>(f_tmtrtvMRV.bind_mut(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/2", modes: "mrvMRV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, StvMRV>(f_tmtrtvMRV.bind_mut(Tok::new(h[0])).bind_ref(Tok::new(h[1])), PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/3", modes: "mrvMRV", bound: 3, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SMRV>(f_tmtrtvMRV.bind_mut(Tok::new(h[0])).bind_ref(Tok::new(h[1])).bind_value(Tok::new(h[2])), PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/4", modes: "mrvMRV", bound: 4, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SRV>(f_tmtrtvMRV.bind_mut(Tok::new(h[0])).bind_ref(Tok::new(h[1])).bind_value(Tok::new(h[2])).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/5", modes: "mrvMRV", bound: 5, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>(f_tmtrtvMRV.bind_mut(Tok::new(h[0])).bind_ref(Tok::new(h[1])).bind_value(Tok::new(h[2])).bind_mut(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "tmtrtvMRV/6", modes: "mrvMRV", bound: 6, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>(f_tmtrtvMRV.bind_mut(Tok::new(h[0])).bind_ref(Tok::new(h[1])).bind_value(Tok::new(h[2])).bind_mut(h[3]).bind_ref(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/0", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SVRMVRMVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR, PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/1", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRMVRMVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/2", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMVRMVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/3", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVRMVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/4", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/5", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/6", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(h[3]).bind_ref(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/7", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(h[3]).bind_ref(h[4]).bind_mut(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/8", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(h[3]).bind_ref(h[4]).bind_mut(h[5]).bind_value(h[6]).bind_ref(h[7]), PhantomData)) } });
    v.push(Case { name: "VRMVRMVRMVRMVRMVRMVR/9", modes: "VRMVRMVRMVRMVRMVRMVR", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVRMVRMVRMVR>(f_VRMVRMVRMVRMVRMVRMVR.bind_value(h[0]).bind_ref(h[1]).bind_mut(h[2]).bind_value(h[3]).bind_ref(h[4]).bind_mut(h[5]).bind_value(h[6]).bind_ref(h[7]).bind_mut(h[8]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/0", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMVRMVRMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV, PhantomData)) } });
}

fn cases4(v: &mut Vec<Case>) {
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/1", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVRMVRMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/2", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMVRMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/3", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVRMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/4", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVRMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/5", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/6", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_value(h[4]).bind_ref(h[5]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/7", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_value(h[4]).bind_ref(h[5]).bind_mut(h[6]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/8", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_value(h[4]).bind_ref(h[5]).bind_mut(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "MVRMVRMVRMVRMVRMVRMV/9", modes: "MVRMVRMVRMVRMVRMVRMV", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVRMVRMVRMV>(f_MVRMVRMVRMVRMVRMVRMV.bind_mut(h[0]).bind_value(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_value(h[4]).bind_ref(h[5]).bind_mut(h[6]).bind_value(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/0", modes: "rMVrMVrMVrMVrMVrMVr", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, StrMVtrMVtrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr, PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/1", modes: "rMVrMVrMVrMVrMVrMVr", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMVtrMVtrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/2", modes: "rMVrMVrMVrMVrMVrMVr", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVtrMVtrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/3", modes: "rMVrMVrMVrMVrMVrMVr", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, StrMVtrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/4", modes: "rMVrMVrMVrMVrMVrMVr", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVtrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]).bind_ref(Tok::new(h[3])), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/5", modes: "rMVrMVrMVrMVrMVrMVr", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVtrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]).bind_ref(Tok::new(h[3])).bind_mut(h[4]), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/6", modes: "rMVrMVrMVrMVrMVrMVr", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, StrMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]).bind_ref(Tok::new(h[3])).bind_mut(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/7", modes: "rMVrMVrMVrMVrMVrMVr", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]).bind_ref(Tok::new(h[3])).bind_mut(h[4]).bind_value(h[5]).bind_ref(Tok::new(h[6])), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/8", modes: "rMVrMVrMVrMVrMVrMVr", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SVtrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]).bind_ref(Tok::new(h[3])).bind_mut(h[4]).bind_value(h[5]).bind_ref(Tok::new(h[6])).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "trMVtrMVtrMVtrMVtrMVtrMVtr/9", modes: "rMVrMVrMVrMVrMVrMVr", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, StrMVtrMVtrMVtr>(f_trMVtrMVtrMVtrMVtrMVtrMVtr.bind_ref(Tok::new(h[0])).bind_mut(h[1]).bind_value(h[2]).bind_ref(Tok::new(h[3])).bind_mut(h[4]).bind_value(h[5]).bind_ref(Tok::new(h[6])).bind_mut(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/0", modes: "RMRMRMRMRV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SRMRMRMRMRV>(f_RMRMRMRMRV, PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/1", modes: "RMRMRMRMRV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMRMRMRMRV>(f_RMRMRMRMRV.bind_ref(h[0]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/2", modes: "RMRMRMRMRV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMRMRMRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/3", modes: "RMRMRMRMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMRMRMRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/4", modes: "RMRMRMRMRV", bound: 4, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMRMRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]).bind_mut(h[3]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/5", modes: "RMRMRMRMRV", bound: 5, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMRMRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_ref(h[4]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/6", modes: "RMRMRMRMRV", bound: 6, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRMRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_ref(h[4]).bind_mut(h[5]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/7", modes: "RMRMRMRMRV", bound: 7, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_ref(h[4]).bind_mut(h[5]).bind_ref(h[6]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/8", modes: "RMRMRMRMRV", bound: 8, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SRV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_ref(h[4]).bind_mut(h[5]).bind_ref(h[6]).bind_mut(h[7]), PhantomData)) } });
    v.push(Case { name: "RMRMRMRMRV/9", modes: "RMRMRMRMRV", bound: 9, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>(f_RMRMRMRMRV.bind_ref(h[0]).bind_mut(h[1]).bind_ref(h[2]).bind_mut(h[3]).bind_ref(h[4]).bind_mut(h[5]).bind_ref(h[6]).bind_mut(h[7]).bind_ref(h[8]), PhantomData)) } });
    v.push(Case { name: "lambda 0|0|00", modes: "", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ *lambda! { || -> u64 { let mut acc = 17u64; acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|0|10", modes: "", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ *lambda! { move() || -> u64 { let mut acc = 17u64; acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|V|00", modes: "V", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ *lambda! { |a0: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|V|01", modes: "V", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ *lambda! { |a0: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|V|10", modes: "V", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ *lambda! { move() |a0: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|M|00", modes: "M", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ *lambda! { |a0: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|M|01", modes: "M", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ *lambda! { |a0: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|M|10", modes: "M", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ *lambda! { move() |a0: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|R|00", modes: "R", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ *lambda! { |a0: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|R|01", modes: "R", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ *lambda! { |a0: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|R|10", modes: "R", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ *lambda! { move() |a0: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|tv|00", modes: "v", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ *lambda! { |a0: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|tv|01", modes: "v", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ *lambda! { |a0: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|tv|10", modes: "v", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ *lambda! { move() |a0: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|V2|00", modes: "VV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ *lambda! { |a0: u64, a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|V2|01", modes: "VV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ *lambda! { |a0: u64, a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|V2|10", modes: "VV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ *lambda! { move() |a0: u64, a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|MR|00", modes: "MR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ *lambda! { |a0: &mut u64, a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|MR|01", modes: "MR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ *lambda! { |a0: &mut u64, a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda 0|MR|10", modes: "MR", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ *lambda! { move() |a0: &mut u64, a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|0|00", modes: "V", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; *lambda! { move(a0: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|0|10", modes: "V", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; *lambda! { move(a0: u64,) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|V|00", modes: "VV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|V|01", modes: "VV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|V|10", modes: "VV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; *lambda! { move(a0: u64,) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|M|00", modes: "VM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|M|01", modes: "VM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|M|10", modes: "VM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; *lambda! { move(a0: u64,) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|R|00", modes: "VR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|R|01", modes: "VR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|R|10", modes: "VR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; *lambda! { move(a0: u64,) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|tv|00", modes: "Vv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|tv|01", modes: "Vv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|tv|10", modes: "Vv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; *lambda! { move(a0: u64,) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|V2|00", modes: "VVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|V2|01", modes: "VVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: u64, a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|V2|10", modes: "VVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = h[0]; *lambda! { move(a0: u64,) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|MR|00", modes: "VMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|MR|01", modes: "VMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = h[0]; *lambda! { move(a0: u64) |a1: &mut u64, a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V|MR|10", modes: "VMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = h[0]; *lambda! { move(a0: u64,) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|0|00", modes: "R", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; *lambda! { move(&a0: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|0|10", modes: "R", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|V|00", modes: "RV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|V|01", modes: "RV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|V|10", modes: "RV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|M|00", modes: "RM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|M|01", modes: "RM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|M|10", modes: "RM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|R|00", modes: "RR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|R|01", modes: "RR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|R|10", modes: "RR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|tv|00", modes: "Rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|tv|01", modes: "Rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|tv|10", modes: "Rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|V2|00", modes: "RVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|V2|01", modes: "RVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: u64, a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|V2|10", modes: "RVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|MR|00", modes: "RMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|MR|01", modes: "RMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = h[0]; *lambda! { move(&a0: &u64) |a1: &mut u64, a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R|MR|10", modes: "RMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = h[0]; *lambda! { move(&a0: &u64,) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|0|00", modes: "M", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|0|10", modes: "M", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|V|00", modes: "MV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|V|01", modes: "MV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|V|10", modes: "MV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|M|00", modes: "MM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|M|01", modes: "MM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|M|10", modes: "MM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|R|00", modes: "MR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|R|01", modes: "MR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|R|10", modes: "MR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|tv|00", modes: "Mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|tv|01", modes: "Mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|tv|10", modes: "Mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|V2|00", modes: "MVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|V2|01", modes: "MVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: u64, a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|V2|10", modes: "MVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|MR|00", modes: "MMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|MR|01", modes: "MMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64) |a1: &mut u64, a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M|MR|10", modes: "MMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>({ let a0 = h[0]; *lambda! { move(&mut a0: &mut u64,) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|0|00", modes: "v", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|0|10", modes: "v", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|V|00", modes: "vV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|V|01", modes: "vV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|V|10", modes: "vV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|M|00", modes: "vM", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|M|01", modes: "vM", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|M|10", modes: "vM", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|R|00", modes: "vR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|R|01", modes: "vR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
}

fn cases5(v: &mut Vec<Case>) {
    v.push(Case { name: "lambda tv|R|10", modes: "vR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|tv|00", modes: "vv", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|tv|01", modes: "vv", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|tv|10", modes: "vv", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|V2|00", modes: "vVV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|V2|01", modes: "vVV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: u64, a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|V2|10", modes: "vVV", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|MR|00", modes: "vMR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|MR|01", modes: "vMR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok) |a1: &mut u64, a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv|MR|10", modes: "vMR", bound: 1, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(a0: Tok,) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|0|00", modes: "r", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|0|10", modes: "r", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|V|00", modes: "rV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|V|01", modes: "rV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|V|10", modes: "rV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|M|00", modes: "rM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|M|01", modes: "rM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|M|10", modes: "rM", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|R|00", modes: "rR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|R|01", modes: "rR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|R|10", modes: "rR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|tv|00", modes: "rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|tv|01", modes: "rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|tv|10", modes: "rv", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|V2|00", modes: "rVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|V2|01", modes: "rVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: u64, a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|V2|10", modes: "rVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|MR|00", modes: "rMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|MR|01", modes: "rMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok) |a1: &mut u64, a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tr|MR|10", modes: "rMR", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(&a0: &Tok,) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|0|00", modes: "m", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|0|10", modes: "m", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|V|00", modes: "mV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|V|01", modes: "mV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|V|10", modes: "mV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) |a1: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|M|00", modes: "mM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|M|01", modes: "mM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|M|10", modes: "mM", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) |a1: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|R|00", modes: "mR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|R|01", modes: "mR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|R|10", modes: "mR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) |a1: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|tv|00", modes: "mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|tv|01", modes: "mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|tv|10", modes: "mv", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) |a1: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|V2|00", modes: "mVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|V2|01", modes: "mVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: u64, a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|V2|10", modes: "mVV", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV2>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) |a1: u64, a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); a0.0 = mix(a0.0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|MR|00", modes: "mMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|MR|01", modes: "mMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok) |a1: &mut u64, a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tm|MR|10", modes: "mMR", bound: 1, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SMR>({ let a0 = Tok::new(h[0]); *lambda! { move(&mut a0: &mut Tok,) |a1: &mut u64, a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); a0.0 = mix(a0.0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|0|00", modes: "VV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|V|00", modes: "VVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|V|01", modes: "VVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|V|10", modes: "VVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|M|00", modes: "VVM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|M|01", modes: "VVM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|R|00", modes: "VVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|R|01", modes: "VVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|tv|00", modes: "VVv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2|tv|01", modes: "VVv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, a1: u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|0|00", modes: "VR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|V|00", modes: "VRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|V|01", modes: "VRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|V|10", modes: "VRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|M|00", modes: "VRM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|M|01", modes: "VRM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|R|00", modes: "VRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|R|01", modes: "VRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|tv|00", modes: "VRv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR|tv|01", modes: "VRv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &a1: &u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|0|00", modes: "VM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|V|00", modes: "VMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|V|01", modes: "VMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|V|10", modes: "VMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|M|00", modes: "VMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|M|01", modes: "VMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|R|00", modes: "VMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|R|01", modes: "VMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|tv|00", modes: "VMv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM|tv|01", modes: "VMv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(a0: u64, &mut a1: &mut u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|0|00", modes: "Vv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|V|00", modes: "VvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|V|01", modes: "VvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|V|10", modes: "VvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|M|00", modes: "VvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|M|01", modes: "VvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|R|00", modes: "VvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|R|01", modes: "VvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|tv|00", modes: "Vvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Vtv|tv|01", modes: "Vvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(a0: u64, a1: Tok) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|0|00", modes: "RV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|V|00", modes: "RVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|V|01", modes: "RVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|V|10", modes: "RVV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|M|00", modes: "RVM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|M|01", modes: "RVM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|R|00", modes: "RVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|R|01", modes: "RVR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|tv|00", modes: "RVv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV|tv|01", modes: "RVv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, a1: u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|0|00", modes: "RR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|V|00", modes: "RRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|V|01", modes: "RRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|V|10", modes: "RRV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|M|00", modes: "RRM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|M|01", modes: "RRM", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|R|00", modes: "RRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|R|01", modes: "RRR", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|tv|00", modes: "RRv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2|tv|01", modes: "RRv", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &a1: &u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|0|00", modes: "RM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|V|00", modes: "RMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|V|01", modes: "RMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|V|10", modes: "RMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|M|00", modes: "RMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|M|01", modes: "RMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|R|00", modes: "RMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|R|01", modes: "RMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM|tv|00", modes: "RMv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
}

fn cases6(v: &mut Vec<Case>) {
    v.push(Case { name: "lambda RM|tv|01", modes: "RMv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&a0: &u64, &mut a1: &mut u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|0|00", modes: "Rv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|V|00", modes: "RvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|V|01", modes: "RvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|V|10", modes: "RvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|M|00", modes: "RvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|M|01", modes: "RvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|R|00", modes: "RvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|R|01", modes: "RvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|tv|00", modes: "Rvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Rtv|tv|01", modes: "Rvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&a0: &u64, a1: Tok) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|0|00", modes: "MV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|V|00", modes: "MVV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|V|01", modes: "MVV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|V|10", modes: "MVV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|M|00", modes: "MVM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|M|01", modes: "MVM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|R|00", modes: "MVR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|R|01", modes: "MVR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|tv|00", modes: "MVv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV|tv|01", modes: "MVv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, a1: u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|0|00", modes: "MR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|V|00", modes: "MRV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|V|01", modes: "MRV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|V|10", modes: "MRV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|M|00", modes: "MRM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|M|01", modes: "MRM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|R|00", modes: "MRR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|R|01", modes: "MRR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|tv|00", modes: "MRv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR|tv|01", modes: "MRv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &a1: &u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|0|00", modes: "MM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|V|00", modes: "MMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|V|01", modes: "MMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|V|10", modes: "MMV", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|M|00", modes: "MMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|M|01", modes: "MMM", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SM>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|R|00", modes: "MMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|R|01", modes: "MMR", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SR>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|tv|00", modes: "MMv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2|tv|01", modes: "MMv", bound: 2, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, Stv>({ let a0 = h[0]; let a1 = h[1]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|0|00", modes: "Mv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|V|00", modes: "MvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|V|01", modes: "MvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|V|10", modes: "MvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|M|00", modes: "MvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|M|01", modes: "MvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|R|00", modes: "MvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|R|01", modes: "MvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|tv|00", modes: "Mvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda Mtv|tv|01", modes: "Mvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = h[0]; let a1 = Tok::new(h[1]); *lambda! { move(&mut a0: &mut u64, a1: Tok) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|0|00", modes: "vV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|V|00", modes: "vVV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|V|01", modes: "vVV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|V|10", modes: "vVV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|M|00", modes: "vVM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|M|01", modes: "vVM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|R|00", modes: "vVR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|R|01", modes: "vVR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|tv|00", modes: "vVv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvV|tv|01", modes: "vVv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, a1: u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|0|00", modes: "vR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|V|00", modes: "vRV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|V|01", modes: "vRV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|V|10", modes: "vRV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|M|00", modes: "vRM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|M|01", modes: "vRM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|R|00", modes: "vRR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|R|01", modes: "vRR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|tv|00", modes: "vRv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvR|tv|01", modes: "vRv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &a1: &u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|0|00", modes: "vM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|V|00", modes: "vMV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|V|01", modes: "vMV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|V|10", modes: "vMV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|M|00", modes: "vMM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|M|01", modes: "vMM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|R|00", modes: "vMR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|R|01", modes: "vMR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|tv|00", modes: "vMv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tvM|tv|01", modes: "vMv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = h[1]; *lambda! { move(a0: Tok, &mut a1: &mut u64) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, *a1); acc = mix(acc, a2.0); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|0|00", modes: "vv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, S0>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|V|00", modes: "vvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|V|01", modes: "vvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|V|10", modes: "vvV", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SV>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok,) |a2: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|M|00", modes: "vvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: &mut u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|M|01", modes: "vvM", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SM>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: &mut u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|R|00", modes: "vvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: &u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|R|01", modes: "vvR", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, SR>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: &u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|tv|00", modes: "vvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: Tok| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda tv2|tv|01", modes: "vvv", bound: 2, level: Level::Once, make: |h| { let _ = h; Box::new(C::<_, LOnce, Stv>({ let a0 = Tok::new(h[0]); let a1 = Tok::new(h[1]); *lambda! { move(a0: Tok, a1: Tok) |a2: Tok,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0.0); acc = mix(acc, a1.0); acc = mix(acc, a2.0); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V3|0|00", modes: "VVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V3|V|00", modes: "VVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V3|V|01", modes: "VVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2R|0|00", modes: "VVR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2R|V|00", modes: "VVRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2R|V|01", modes: "VVRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2M|0|00", modes: "VVM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2M|V|00", modes: "VVMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda V2M|V|01", modes: "VVMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, a1: u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VRV|0|00", modes: "VRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VRV|V|00", modes: "VRVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VRV|V|01", modes: "VRVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR2|0|00", modes: "VRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR2|V|00", modes: "VRRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VR2|V|01", modes: "VRRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VRM|0|00", modes: "VRM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VRM|V|00", modes: "VRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VRM|V|01", modes: "VRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &a1: &u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VMV|0|00", modes: "VMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VMV|V|00", modes: "VMVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VMV|V|01", modes: "VMVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VMR|0|00", modes: "VMR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VMR|V|00", modes: "VMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VMR|V|01", modes: "VMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM2|0|00", modes: "VMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM2|V|00", modes: "VMMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda VM2|V|01", modes: "VMMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(a0: u64, &mut a1: &mut u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV2|0|00", modes: "RVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
}

fn cases7(v: &mut Vec<Case>) {
    v.push(Case { name: "lambda RV2|V|00", modes: "RVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RV2|V|01", modes: "RVVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RVR|0|00", modes: "RVR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RVR|V|00", modes: "RVRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RVR|V|01", modes: "RVRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RVM|0|00", modes: "RVM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RVM|V|00", modes: "RVMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RVM|V|01", modes: "RVMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, a1: u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2V|0|00", modes: "RRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2V|V|00", modes: "RRVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2V|V|01", modes: "RRVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R3|0|00", modes: "RRR", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R3|V|00", modes: "RRRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R3|V|01", modes: "RRRV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2M|0|00", modes: "RRM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2M|V|00", modes: "RRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda R2M|V|01", modes: "RRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &a1: &u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RMV|0|00", modes: "RMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RMV|V|00", modes: "RMVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RMV|V|01", modes: "RMVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RMR|0|00", modes: "RMR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RMR|V|00", modes: "RMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RMR|V|01", modes: "RMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM2|0|00", modes: "RMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM2|V|00", modes: "RMMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda RM2|V|01", modes: "RMMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&a0: &u64, &mut a1: &mut u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV2|0|00", modes: "MVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV2|V|00", modes: "MVVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MV2|V|01", modes: "MVVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MVR|0|00", modes: "MVR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MVR|V|00", modes: "MVRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MVR|V|01", modes: "MVRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MVM|0|00", modes: "MVM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MVM|V|00", modes: "MVMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MVM|V|01", modes: "MVMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, a1: u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MRV|0|00", modes: "MRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MRV|V|00", modes: "MRVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MRV|V|01", modes: "MRVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR2|0|00", modes: "MRR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR2|V|00", modes: "MRRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MR2|V|01", modes: "MRRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MRM|0|00", modes: "MRM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MRM|V|00", modes: "MRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda MRM|V|01", modes: "MRMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &a1: &u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2V|0|00", modes: "MMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, a2: u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2V|V|00", modes: "MMVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, a2: u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2V|V|01", modes: "MMVV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, a2: u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2R|0|00", modes: "MMR", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, &a2: &u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2R|V|00", modes: "MMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, &a2: &u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M2R|V|01", modes: "MMRV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, &a2: &u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M3|0|00", modes: "MMM", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, S0>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, &mut a2: &mut u64) || -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M3|V|00", modes: "MMMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, &mut a2: &mut u64) |a3: u64| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "lambda M3|V|01", modes: "MMMV", bound: 3, level: Level::Mut, make: |h| { let _ = h; Box::new(C::<_, LMut, SV>({ let a0 = h[0]; let a1 = h[1]; let a2 = h[2]; *lambda! { move(&mut a0: &mut u64, &mut a1: &mut u64, &mut a2: &mut u64) |a3: u64,| -> u64 { let mut acc = 17u64; acc = mix(acc, *a0); acc = mix(acc, *a1); acc = mix(acc, *a2); acc = mix(acc, a3); *a0 = mix(*a0, acc); *a1 = mix(*a1, acc); *a2 = mix(*a2, acc); acc } } }, PhantomData)) } });
    v.push(Case { name: "static0/0", modes: "", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn() -> u64>::new(plain0) }, PhantomData)) } });
    v.push(Case { name: "static1/0", modes: "V", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(unsafe { StaticFn::<fn(u64) -> u64>::new(plain1) }, PhantomData)) } });
    v.push(Case { name: "static1/1", modes: "V", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64) -> u64>::new(plain1) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static2/0", modes: "VV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>(unsafe { StaticFn::<fn(u64, u64) -> u64>::new(plain2) }, PhantomData)) } });
    v.push(Case { name: "static2/1", modes: "VV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV>(unsafe { StaticFn::<fn(u64, u64) -> u64>::new(plain2) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static2/2", modes: "VV", bound: 2, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64) -> u64>::new(plain2) }.bind_value(h[0]).bind_value(h[1]), PhantomData)) } });
    v.push(Case { name: "static3/0", modes: "VVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV3>(unsafe { StaticFn::<fn(u64, u64, u64) -> u64>::new(plain3) }, PhantomData)) } });
    v.push(Case { name: "static3/1", modes: "VVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV2>(unsafe { StaticFn::<fn(u64, u64, u64) -> u64>::new(plain3) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static3/3", modes: "VVV", bound: 3, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64) -> u64>::new(plain3) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]), PhantomData)) } });
    v.push(Case { name: "static4/0", modes: "VVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV4>(unsafe { StaticFn::<fn(u64, u64, u64, u64) -> u64>::new(plain4) }, PhantomData)) } });
    v.push(Case { name: "static4/1", modes: "VVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV3>(unsafe { StaticFn::<fn(u64, u64, u64, u64) -> u64>::new(plain4) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static4/4", modes: "VVVV", bound: 4, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64) -> u64>::new(plain4) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]), PhantomData)) } });
    v.push(Case { name: "static5/0", modes: "VVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV5>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64) -> u64>::new(plain5) }, PhantomData)) } });
    v.push(Case { name: "static5/1", modes: "VVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV4>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64) -> u64>::new(plain5) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static5/5", modes: "VVVVV", bound: 5, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64) -> u64>::new(plain5) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]), PhantomData)) } });
    v.push(Case { name: "static6/0", modes: "VVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV6>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64) -> u64>::new(plain6) }, PhantomData)) } });
    v.push(Case { name: "static6/1", modes: "VVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV5>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64) -> u64>::new(plain6) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static6/6", modes: "VVVVVV", bound: 6, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64) -> u64>::new(plain6) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]), PhantomData)) } });
    v.push(Case { name: "static7/0", modes: "VVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV7>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain7) }, PhantomData)) } });
    v.push(Case { name: "static7/1", modes: "VVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV6>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain7) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static7/7", modes: "VVVVVVV", bound: 7, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain7) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]), PhantomData)) } });
    v.push(Case { name: "static8/0", modes: "VVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain8) }, PhantomData)) } });
    v.push(Case { name: "static8/1", modes: "VVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV7>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain8) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static8/8", modes: "VVVVVVVV", bound: 8, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain8) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]), PhantomData)) } });
    v.push(Case { name: "static9/0", modes: "VVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain9) }, PhantomData)) } });
    v.push(Case { name: "static9/1", modes: "VVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV8>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain9) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static9/9", modes: "VVVVVVVVV", bound: 9, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain9) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]), PhantomData)) } });
    v.push(Case { name: "static10/0", modes: "VVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV10>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain10) }, PhantomData)) } });
    v.push(Case { name: "static10/1", modes: "VVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV9>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain10) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static10/10", modes: "VVVVVVVVVV", bound: 10, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain10) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]), PhantomData)) } });
    v.push(Case { name: "static11/0", modes: "VVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV11>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain11) }, PhantomData)) } });
    v.push(Case { name: "static11/1", modes: "VVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV10>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain11) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static11/11", modes: "VVVVVVVVVVV", bound: 11, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain11) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]), PhantomData)) } });
    v.push(Case { name: "static12/0", modes: "VVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV12>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain12) }, PhantomData)) } });
    v.push(Case { name: "static12/1", modes: "VVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV11>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain12) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static12/12", modes: "VVVVVVVVVVVV", bound: 12, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain12) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]), PhantomData)) } });
    v.push(Case { name: "static13/0", modes: "VVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV13>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain13) }, PhantomData)) } });
    v.push(Case { name: "static13/1", modes: "VVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV12>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain13) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static13/13", modes: "VVVVVVVVVVVVV", bound: 13, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain13) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]), PhantomData)) } });
    v.push(Case { name: "static14/0", modes: "VVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV14>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain14) }, PhantomData)) } });
    v.push(Case { name: "static14/1", modes: "VVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV13>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain14) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static14/14", modes: "VVVVVVVVVVVVVV", bound: 14, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain14) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]), PhantomData)) } });
    v.push(Case { name: "static15/0", modes: "VVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV15>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain15) }, PhantomData)) } });
    v.push(Case { name: "static15/1", modes: "VVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV14>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain15) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static15/15", modes: "VVVVVVVVVVVVVVV", bound: 15, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain15) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]).bind_value(h[14]), PhantomData)) } });
    v.push(Case { name: "static16/0", modes: "VVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV16>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain16) }, PhantomData)) } });
    v.push(Case { name: "static16/1", modes: "VVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV15>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain16) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static16/16", modes: "VVVVVVVVVVVVVVVV", bound: 16, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain16) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]).bind_value(h[14]).bind_value(h[15]), PhantomData)) } });
    v.push(Case { name: "static17/0", modes: "VVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV17>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain17) }, PhantomData)) } });
    v.push(Case { name: "static17/1", modes: "VVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV16>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain17) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static17/17", modes: "VVVVVVVVVVVVVVVVV", bound: 17, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain17) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]).bind_value(h[14]).bind_value(h[15]).bind_value(h[16]), PhantomData)) } });
    v.push(Case { name: "static18/0", modes: "VVVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV18>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain18) }, PhantomData)) } });
    v.push(Case { name: "static18/1", modes: "VVVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV17>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain18) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static18/18", modes: "VVVVVVVVVVVVVVVVVV", bound: 18, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain18) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]).bind_value(h[14]).bind_value(h[15]).bind_value(h[16]).bind_value(h[17]), PhantomData)) } });
    v.push(Case { name: "static19/0", modes: "VVVVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV19>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain19) }, PhantomData)) } });
    v.push(Case { name: "static19/1", modes: "VVVVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV18>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain19) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static19/19", modes: "VVVVVVVVVVVVVVVVVVV", bound: 19, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain19) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]).bind_value(h[14]).bind_value(h[15]).bind_value(h[16]).bind_value(h[17]).bind_value(h[18]), PhantomData)) } });
    v.push(Case { name: "static20/0", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 0, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV20>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain20) }, PhantomData)) } });
    v.push(Case { name: "static20/1", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 1, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, SV19>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain20) }.bind_value(h[0]), PhantomData)) } });
    v.push(Case { name: "static20/20", modes: "VVVVVVVVVVVVVVVVVVVV", bound: 20, level: Level::Fn, make: |h| { let _ = h; Box::new(C::<_, LFn, S0>(unsafe { StaticFn::<fn(u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64) -> u64>::new(plain20) }.bind_value(h[0]).bind_value(h[1]).bind_value(h[2]).bind_value(h[3]).bind_value(h[4]).bind_value(h[5]).bind_value(h[6]).bind_value(h[7]).bind_value(h[8]).bind_value(h[9]).bind_value(h[10]).bind_value(h[11]).bind_value(h[12]).bind_value(h[13]).bind_value(h[14]).bind_value(h[15]).bind_value(h[16]).bind_value(h[17]).bind_value(h[18]).bind_value(h[19]), PhantomData)) } });
}

pub fn cases() -> Vec<Case> {
    let mut v = Vec::new();
    cases0(&mut v);
    cases1(&mut v);
    cases2(&mut v);
    cases3(&mut v);
    cases4(&mut v);
    cases5(&mut v);
    cases6(&mut v);
    cases7(&mut v);
    v
}

pub fn runs() -> Vec<Run> {
    let mut v: Vec<Run> = Vec::new();
    v.push(("0", "", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_0.run(), 1 => f_0.spawn()?.join(), 2 => tokio(f_0.run_tokio()), 3 => smol(f_0.run_smol()), 4 => tokio(async { f_0.spawn_tokio().await?.join().await }), _ => smol(async { f_0.spawn_smol().await?.join().await }) } })));
    v.push(("V", "V", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V.run(h[0]), 1 => f_V.spawn(h[0])?.join(), 2 => tokio(f_V.run_tokio(h[0])), 3 => smol(f_V.run_smol(h[0])), 4 => tokio(async { f_V.spawn_tokio(h[0]).await?.join().await }), _ => smol(async { f_V.spawn_smol(h[0]).await?.join().await }) } })));
    v.push(("tv", "v", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_tv.run(Tok::new(h[0])), 1 => f_tv.spawn(Tok::new(h[0]))?.join(), 2 => tokio(f_tv.run_tokio(Tok::new(h[0]))), 3 => smol(f_tv.run_smol(Tok::new(h[0]))), 4 => tokio(async { f_tv.spawn_tokio(Tok::new(h[0])).await?.join().await }), _ => smol(async { f_tv.spawn_smol(Tok::new(h[0])).await?.join().await }) } })));
    v.push(("V2", "VV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V2.run(h[0], h[1]), 1 => f_V2.spawn(h[0], h[1])?.join(), 2 => tokio(f_V2.run_tokio(h[0], h[1])), 3 => smol(f_V2.run_smol(h[0], h[1])), 4 => tokio(async { f_V2.spawn_tokio(h[0], h[1]).await?.join().await }), _ => smol(async { f_V2.spawn_smol(h[0], h[1]).await?.join().await }) } })));
    v.push(("Vtv", "Vv", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_Vtv.run(h[0], Tok::new(h[1])), 1 => f_Vtv.spawn(h[0], Tok::new(h[1]))?.join(), 2 => tokio(f_Vtv.run_tokio(h[0], Tok::new(h[1]))), 3 => smol(f_Vtv.run_smol(h[0], Tok::new(h[1]))), 4 => tokio(async { f_Vtv.spawn_tokio(h[0], Tok::new(h[1])).await?.join().await }), _ => smol(async { f_Vtv.spawn_smol(h[0], Tok::new(h[1])).await?.join().await }) } })));
    v.push(("tvV", "vV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_tvV.run(Tok::new(h[0]), h[1]), 1 => f_tvV.spawn(Tok::new(h[0]), h[1])?.join(), 2 => tokio(f_tvV.run_tokio(Tok::new(h[0]), h[1])), 3 => smol(f_tvV.run_smol(Tok::new(h[0]), h[1])), 4 => tokio(async { f_tvV.spawn_tokio(Tok::new(h[0]), h[1]).await?.join().await }), _ => smol(async { f_tvV.spawn_smol(Tok::new(h[0]), h[1]).await?.join().await }) } })));
    v.push(("tv2", "vv", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_tv2.run(Tok::new(h[0]), Tok::new(h[1])), 1 => f_tv2.spawn(Tok::new(h[0]), Tok::new(h[1]))?.join(), 2 => tokio(f_tv2.run_tokio(Tok::new(h[0]), Tok::new(h[1]))), 3 => smol(f_tv2.run_smol(Tok::new(h[0]), Tok::new(h[1]))), 4 => tokio(async { f_tv2.spawn_tokio(Tok::new(h[0]), Tok::new(h[1])).await?.join().await }), _ => smol(async { f_tv2.spawn_smol(Tok::new(h[0]), Tok::new(h[1])).await?.join().await }) } })));
    v.push(("V3", "VVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V3.run(h[0], h[1], h[2]), 1 => f_V3.spawn(h[0], h[1], h[2])?.join(), 2 => tokio(f_V3.run_tokio(h[0], h[1], h[2])), 3 => smol(f_V3.run_smol(h[0], h[1], h[2])), 4 => tokio(async { f_V3.spawn_tokio(h[0], h[1], h[2]).await?.join().await }), _ => smol(async { f_V3.spawn_smol(h[0], h[1], h[2]).await?.join().await }) } })));
    v.push(("V4", "VVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V4.run(h[0], h[1], h[2], h[3]), 1 => f_V4.spawn(h[0], h[1], h[2], h[3])?.join(), 2 => tokio(f_V4.run_tokio(h[0], h[1], h[2], h[3])), 3 => smol(f_V4.run_smol(h[0], h[1], h[2], h[3])), 4 => tokio(async { f_V4.spawn_tokio(h[0], h[1], h[2], h[3]).await?.join().await }), _ => smol(async { f_V4.spawn_smol(h[0], h[1], h[2], h[3]).await?.join().await }) } })));
    v.push(("V5", "VVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V5.run(h[0], h[1], h[2], h[3], h[4]), 1 => f_V5.spawn(h[0], h[1], h[2], h[3], h[4])?.join(), 2 => tokio(f_V5.run_tokio(h[0], h[1], h[2], h[3], h[4])), 3 => smol(f_V5.run_smol(h[0], h[1], h[2], h[3], h[4])), 4 => tokio(async { f_V5.spawn_tokio(h[0], h[1], h[2], h[3], h[4]).await?.join().await }), _ => smol(async { f_V5.spawn_smol(h[0], h[1], h[2], h[3], h[4]).await?.join().await }) } })));
    v.push(("V6", "VVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V6.run(h[0], h[1], h[2], h[3], h[4], h[5]), 1 => f_V6.spawn(h[0], h[1], h[2], h[3], h[4], h[5])?.join(), 2 => tokio(f_V6.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5])), 3 => smol(f_V6.run_smol(h[0], h[1], h[2], h[3], h[4], h[5])), 4 => tokio(async { f_V6.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5]).await?.join().await }), _ => smol(async { f_V6.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5]).await?.join().await }) } })));
    v.push(("V7", "VVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V7.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6]), 1 => f_V7.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6])?.join(), 2 => tokio(f_V7.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6])), 3 => smol(f_V7.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6])), 4 => tokio(async { f_V7.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6]).await?.join().await }), _ => smol(async { f_V7.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6]).await?.join().await }) } })));
    v.push(("V8", "VVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V8.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]), 1 => f_V8.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7])?.join(), 2 => tokio(f_V8.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7])), 3 => smol(f_V8.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7])), 4 => tokio(async { f_V8.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]).await?.join().await }), _ => smol(async { f_V8.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7]).await?.join().await }) } })));
    v.push(("V9", "VVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V9.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]), 1 => f_V9.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8])?.join(), 2 => tokio(f_V9.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8])), 3 => smol(f_V9.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8])), 4 => tokio(async { f_V9.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]).await?.join().await }), _ => smol(async { f_V9.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]).await?.join().await }) } })));
    v.push(("V10", "VVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V10.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9]), 1 => f_V10.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9])?.join(), 2 => tokio(f_V10.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9])), 3 => smol(f_V10.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9])), 4 => tokio(async { f_V10.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9]).await?.join().await }), _ => smol(async { f_V10.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9]).await?.join().await }) } })));
    v.push(("V11", "VVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V11.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10]), 1 => f_V11.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10])?.join(), 2 => tokio(f_V11.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10])), 3 => smol(f_V11.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10])), 4 => tokio(async { f_V11.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10]).await?.join().await }), _ => smol(async { f_V11.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10]).await?.join().await }) } })));
    v.push(("V12", "VVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V12.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11]), 1 => f_V12.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11])?.join(), 2 => tokio(f_V12.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11])), 3 => smol(f_V12.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11])), 4 => tokio(async { f_V12.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11]).await?.join().await }), _ => smol(async { f_V12.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11]).await?.join().await }) } })));
    v.push(("V13", "VVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V13.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12]), 1 => f_V13.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12])?.join(), 2 => tokio(f_V13.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12])), 3 => smol(f_V13.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12])), 4 => tokio(async { f_V13.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12]).await?.join().await }), _ => smol(async { f_V13.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12]).await?.join().await }) } })));
    v.push(("V14", "VVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V14.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13]), 1 => f_V14.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13])?.join(), 2 => tokio(f_V14.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13])), 3 => smol(f_V14.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13])), 4 => tokio(async { f_V14.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13]).await?.join().await }), _ => smol(async { f_V14.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13]).await?.join().await }) } })));
    v.push(("V15", "VVVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V15.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14]), 1 => f_V15.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14])?.join(), 2 => tokio(f_V15.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14])), 3 => smol(f_V15.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14])), 4 => tokio(async { f_V15.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14]).await?.join().await }), _ => smol(async { f_V15.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14]).await?.join().await }) } })));
    v.push(("V16", "VVVVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V16.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]), 1 => f_V16.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15])?.join(), 2 => tokio(f_V16.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15])), 3 => smol(f_V16.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15])), 4 => tokio(async { f_V16.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]).await?.join().await }), _ => smol(async { f_V16.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15]).await?.join().await }) } })));
    v.push(("V17", "VVVVVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V17.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16]), 1 => f_V17.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16])?.join(), 2 => tokio(f_V17.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16])), 3 => smol(f_V17.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16])), 4 => tokio(async { f_V17.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16]).await?.join().await }), _ => smol(async { f_V17.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16]).await?.join().await }) } })));
    v.push(("V18", "VVVVVVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V18.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17]), 1 => f_V18.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17])?.join(), 2 => tokio(f_V18.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17])), 3 => smol(f_V18.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17])), 4 => tokio(async { f_V18.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17]).await?.join().await }), _ => smol(async { f_V18.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17]).await?.join().await }) } })));
    v.push(("V19", "VVVVVVVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V19.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18]), 1 => f_V19.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18])?.join(), 2 => tokio(f_V19.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18])), 3 => smol(f_V19.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18])), 4 => tokio(async { f_V19.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18]).await?.join().await }), _ => smol(async { f_V19.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18]).await?.join().await }) } })));
    v.push(("V20", "VVVVVVVVVVVVVVVVVVVV", Box::new(|h: &[u64], how| { let _ = h; match how { 0 => f_V20.run(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18], h[19]), 1 => f_V20.spawn(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18], h[19])?.join(), 2 => tokio(f_V20.run_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18], h[19])), 3 => smol(f_V20.run_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18], h[19])), 4 => tokio(async { f_V20.spawn_tokio(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18], h[19]).await?.join().await }), _ => smol(async { f_V20.spawn_smol(h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8], h[9], h[10], h[11], h[12], h[13], h[14], h[15], h[16], h[17], h[18], h[19]).await?.join().await }) } })));
    v
}
