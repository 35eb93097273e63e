// Written by gen_derive.py.
use crate::c07::check;
use crate::shapes::*;
use crate::uni::U;
use crossmist::Object;
use std::fs::File;
#[derive(Object)]
pub struct S0;
impl U for S0 {
    fn values() -> Vec<Self> {
        vec![Self]
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
#[derive(Object)]
pub struct S1();
impl U for S1 {
    fn values() -> Vec<Self> {
        vec![Self()]
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
#[derive(Object)]
pub struct S2(u8);
impl U for S2 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S3(u64);
impl U for S3 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S4(String);
impl U for S4 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S5(File);
impl U for S5 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S6(());
impl U for S6 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S7(bool);
impl U for S7 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S8(Vec<u16>);
impl U for S8 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S9(Option<u8>);
impl U for S9 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0)
    }
}
#[derive(Object)]
pub struct S10(u8, u8);
impl U for S10 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S11(u8, u64);
impl U for S11 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S12(u8, String);
impl U for S12 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S13(u8, File);
impl U for S13 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S14(u8, ());
impl U for S14 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S15(u8, bool);
impl U for S15 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S16(u8, Vec<u16>);
impl U for S16 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S17(u8, Option<u8>);
impl U for S17 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S18(u64, u8);
impl U for S18 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S19(u64, u64);
impl U for S19 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S20(u64, String);
impl U for S20 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S21(u64, File);
impl U for S21 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S22(u64, ());
impl U for S22 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S23(u64, bool);
impl U for S23 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S24(u64, Vec<u16>);
impl U for S24 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S25(u64, Option<u8>);
impl U for S25 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S26(String, u8);
impl U for S26 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S27(String, u64);
impl U for S27 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S28(String, String);
impl U for S28 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S29(String, File);
impl U for S29 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S30(String, ());
impl U for S30 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S31(String, bool);
impl U for S31 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S32(String, Vec<u16>);
impl U for S32 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S33(String, Option<u8>);
impl U for S33 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S34(File, u8);
impl U for S34 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S35(File, u64);
impl U for S35 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S36(File, String);
impl U for S36 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S37(File, File);
impl U for S37 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S38(File, ());
impl U for S38 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S39(File, bool);
impl U for S39 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S40(File, Vec<u16>);
impl U for S40 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S41(File, Option<u8>);
impl U for S41 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S42((), u8);
impl U for S42 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S43((), u64);
impl U for S43 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S44((), String);
impl U for S44 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S45((), File);
impl U for S45 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S46((), ());
impl U for S46 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S47((), bool);
impl U for S47 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S48((), Vec<u16>);
impl U for S48 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S49((), Option<u8>);
impl U for S49 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S50(bool, u8);
impl U for S50 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S51(bool, u64);
impl U for S51 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S52(bool, String);
impl U for S52 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S53(bool, File);
impl U for S53 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S54(bool, ());
impl U for S54 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S55(bool, bool);
impl U for S55 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S56(bool, Vec<u16>);
impl U for S56 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S57(bool, Option<u8>);
impl U for S57 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S58(Vec<u16>, u8);
impl U for S58 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S59(Vec<u16>, u64);
impl U for S59 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S60(Vec<u16>, String);
impl U for S60 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S61(Vec<u16>, File);
impl U for S61 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S62(Vec<u16>, ());
impl U for S62 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S63(Vec<u16>, bool);
impl U for S63 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S64(Vec<u16>, Vec<u16>);
impl U for S64 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S65(Vec<u16>, Option<u8>);
impl U for S65 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S66(Option<u8>, u8);
impl U for S66 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S67(Option<u8>, u64);
impl U for S67 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S68(Option<u8>, String);
impl U for S68 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S69(Option<u8>, File);
impl U for S69 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S70(Option<u8>, ());
impl U for S70 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<()>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S71(Option<u8>, bool);
impl U for S71 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<bool>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S72(Option<u8>, Vec<u16>);
impl U for S72 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<Vec<u16>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S73(Option<u8>, Option<u8>);
impl U for S73 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<Option<u8>>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}
#[derive(Object)]
pub struct S74(u8, u8, u8);
impl U for S74 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S75(u8, u8, u64);
impl U for S75 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S76(u8, u8, String);
impl U for S76 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S77(u8, u8, File);
impl U for S77 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S78(u8, u64, u8);
impl U for S78 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S79(u8, u64, u64);
impl U for S79 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S80(u8, u64, String);
impl U for S80 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S81(u8, u64, File);
impl U for S81 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S82(u8, String, u8);
impl U for S82 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S83(u8, String, u64);
impl U for S83 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S84(u8, String, String);
impl U for S84 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S85(u8, String, File);
impl U for S85 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S86(u8, File, u8);
impl U for S86 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S87(u8, File, u64);
impl U for S87 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S88(u8, File, String);
impl U for S88 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S89(u8, File, File);
impl U for S89 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S90(u64, u8, u8);
impl U for S90 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S91(u64, u8, u64);
impl U for S91 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S92(u64, u8, String);
impl U for S92 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S93(u64, u8, File);
impl U for S93 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S94(u64, u64, u8);
impl U for S94 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S95(u64, u64, u64);
impl U for S95 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S96(u64, u64, String);
impl U for S96 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S97(u64, u64, File);
impl U for S97 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S98(u64, String, u8);
impl U for S98 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S99(u64, String, u64);
impl U for S99 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S100(u64, String, String);
impl U for S100 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S101(u64, String, File);
impl U for S101 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S102(u64, File, u8);
impl U for S102 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S103(u64, File, u64);
impl U for S103 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S104(u64, File, String);
impl U for S104 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S105(u64, File, File);
impl U for S105 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S106(String, u8, u8);
impl U for S106 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S107(String, u8, u64);
impl U for S107 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S108(String, u8, String);
impl U for S108 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S109(String, u8, File);
impl U for S109 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S110(String, u64, u8);
impl U for S110 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S111(String, u64, u64);
impl U for S111 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S112(String, u64, String);
impl U for S112 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S113(String, u64, File);
impl U for S113 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S114(String, String, u8);
impl U for S114 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S115(String, String, u64);
impl U for S115 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S116(String, String, String);
impl U for S116 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S117(String, String, File);
impl U for S117 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S118(String, File, u8);
impl U for S118 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S119(String, File, u64);
impl U for S119 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S120(String, File, String);
impl U for S120 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S121(String, File, File);
impl U for S121 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S122(File, u8, u8);
impl U for S122 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S123(File, u8, u64);
impl U for S123 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S124(File, u8, String);
impl U for S124 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S125(File, u8, File);
impl U for S125 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S126(File, u64, u8);
impl U for S126 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S127(File, u64, u64);
impl U for S127 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S128(File, u64, String);
impl U for S128 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S129(File, u64, File);
impl U for S129 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S130(File, String, u8);
impl U for S130 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S131(File, String, u64);
impl U for S131 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S132(File, String, String);
impl U for S132 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S133(File, String, File);
impl U for S133 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S134(File, File, u8);
impl U for S134 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S135(File, File, u64);
impl U for S135 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S136(File, File, String);
impl U for S136 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S137(File, File, File);
impl U for S137 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}
#[derive(Object)]
pub struct S138(u8, u64, u8, u32, bool, u16);
impl U for S138 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<u8>(), n::<u32>(), n::<bool>(), n::<u16>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]), pick(c[3]), pick(c[4]), pick(c[5]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5)
    }
}
#[derive(Object)]
pub struct S139(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String);
impl U for S139 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]), pick(c[3]), pick(c[4]), pick(c[5]), pick(c[6]), pick(c[7]), pick(c[8]), pick(c[9]), pick(c[10]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5) && self.6.same(&o.6) && self.7.same(&o.7) && self.8.same(&o.8) && self.9.same(&o.9) && self.10.same(&o.10)
    }
}
#[derive(Object)]
pub struct S140(String, u64, u64, u64, u64, u64, u64, u64, u64, u64, u64);
impl U for S140 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]), pick(c[3]), pick(c[4]), pick(c[5]), pick(c[6]), pick(c[7]), pick(c[8]), pick(c[9]), pick(c[10]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5) && self.6.same(&o.6) && self.7.same(&o.7) && self.8.same(&o.8) && self.9.same(&o.9) && self.10.same(&o.10)
    }
}
#[derive(Object)]
pub struct S141(File, u8, File, u8, File, u8, File, u8, File, u8);
impl U for S141 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<File>(), n::<u8>(), n::<File>(), n::<u8>(), n::<File>(), n::<u8>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]), pick(c[3]), pick(c[4]), pick(c[5]), pick(c[6]), pick(c[7]), pick(c[8]), pick(c[9]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5) && self.6.same(&o.6) && self.7.same(&o.7) && self.8.same(&o.8) && self.9.same(&o.9)
    }
}
#[derive(Object)]
pub struct S142(u8, i128, char, f64, (u8, u32), [u16; 3]);
impl U for S142 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<i128>(), n::<char>(), n::<f64>(), n::<(u8, u32)>(), n::<[u16; 3]>()]).into_iter().map(|c| Self(pick(c[0]), pick(c[1]), pick(c[2]), pick(c[3]), pick(c[4]), pick(c[5]))).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2) && self.3.same(&o.3) && self.4.same(&o.4) && self.5.same(&o.5)
    }
}
#[derive(Object)]
pub struct S143 {  }
impl U for S143 {
    fn values() -> Vec<Self> {
        vec![Self {  }]
    }
    fn same(&self, _: &Self) -> bool {
        true
    }
}
#[derive(Object)]
pub struct S144 { s: u8 }
impl U for S144 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>()]).into_iter().map(|c| Self { s: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S145 { d: u64 }
impl U for S145 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>()]).into_iter().map(|c| Self { d: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S146 { r#type: String }
impl U for S146 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>()]).into_iter().map(|c| Self { r#type: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S147 { a0: File }
impl U for S147 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>()]).into_iter().map(|c| Self { a0: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S148 { self_: () }
impl U for S148 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>()]).into_iter().map(|c| Self { self_: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S149 { serde: bool }
impl U for S149 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>()]).into_iter().map(|c| Self { serde: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S150 { i: Vec<u16> }
impl U for S150 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>()]).into_iter().map(|c| Self { i: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S151 { value: Option<u8> }
impl U for S151 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>()]).into_iter().map(|c| Self { value: pick(c[0]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S152 { s: u8, d: u8 }
impl U for S152 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S153 { d: u8, r#type: u64 }
impl U for S153 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S154 { r#type: u8, a0: String }
impl U for S154 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S155 { a0: u8, self_: File }
impl U for S155 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S156 { self_: u8, serde: () }
impl U for S156 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<()>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S157 { serde: u8, i: bool }
impl U for S157 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<bool>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S158 { i: u8, value: Vec<u16> }
impl U for S158 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S159 { value: u8, a1: Option<u8> }
impl U for S159 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<Option<u8>>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S160 { a1: u64, usize: u8 }
impl U for S160 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S161 { usize: u64, x: u64 }
impl U for S161 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S162 { x: u64, s: String }
impl U for S162 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S163 { s: u64, d: File }
impl U for S163 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S164 { d: u64, r#type: () }
impl U for S164 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<()>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S165 { r#type: u64, a0: bool }
impl U for S165 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<bool>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S166 { a0: u64, self_: Vec<u16> }
impl U for S166 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S167 { self_: u64, serde: Option<u8> }
impl U for S167 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<Option<u8>>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S168 { serde: String, i: u8 }
impl U for S168 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S169 { i: String, value: u64 }
impl U for S169 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S170 { value: String, a1: String }
impl U for S170 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S171 { a1: String, usize: File }
impl U for S171 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S172 { usize: String, x: () }
impl U for S172 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<()>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S173 { x: String, s: bool }
impl U for S173 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<bool>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S174 { s: String, d: Vec<u16> }
impl U for S174 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S175 { d: String, r#type: Option<u8> }
impl U for S175 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<Option<u8>>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S176 { r#type: File, a0: u8 }
impl U for S176 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S177 { a0: File, self_: u64 }
impl U for S177 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S178 { self_: File, serde: String }
impl U for S178 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S179 { serde: File, i: File }
impl U for S179 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S180 { i: File, value: () }
impl U for S180 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<()>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S181 { value: File, a1: bool }
impl U for S181 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<bool>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S182 { a1: File, usize: Vec<u16> }
impl U for S182 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S183 { usize: File, x: Option<u8> }
impl U for S183 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<Option<u8>>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S184 { x: (), s: u8 }
impl U for S184 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<u8>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S185 { s: (), d: u64 }
impl U for S185 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<u64>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S186 { d: (), r#type: String }
impl U for S186 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<String>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S187 { r#type: (), a0: File }
impl U for S187 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<File>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S188 { a0: (), self_: () }
impl U for S188 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<()>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S189 { self_: (), serde: bool }
impl U for S189 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<bool>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S190 { serde: (), i: Vec<u16> }
impl U for S190 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S191 { i: (), value: Option<u8> }
impl U for S191 {
    fn values() -> Vec<Self> {
        combos(&[n::<()>(), n::<Option<u8>>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S192 { value: bool, a1: u8 }
impl U for S192 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<u8>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S193 { a1: bool, usize: u64 }
impl U for S193 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<u64>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S194 { usize: bool, x: String }
impl U for S194 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<String>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S195 { x: bool, s: File }
impl U for S195 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<File>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S196 { s: bool, d: () }
impl U for S196 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<()>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S197 { d: bool, r#type: bool }
impl U for S197 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<bool>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S198 { r#type: bool, a0: Vec<u16> }
impl U for S198 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S199 { a0: bool, self_: Option<u8> }
impl U for S199 {
    fn values() -> Vec<Self> {
        combos(&[n::<bool>(), n::<Option<u8>>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S200 { self_: Vec<u16>, serde: u8 }
impl U for S200 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<u8>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S201 { serde: Vec<u16>, i: u64 }
impl U for S201 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<u64>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S202 { i: Vec<u16>, value: String }
impl U for S202 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<String>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S203 { value: Vec<u16>, a1: File }
impl U for S203 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<File>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S204 { a1: Vec<u16>, usize: () }
impl U for S204 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<()>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S205 { usize: Vec<u16>, x: bool }
impl U for S205 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<bool>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S206 { x: Vec<u16>, s: Vec<u16> }
impl U for S206 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S207 { s: Vec<u16>, d: Option<u8> }
impl U for S207 {
    fn values() -> Vec<Self> {
        combos(&[n::<Vec<u16>>(), n::<Option<u8>>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S208 { d: Option<u8>, r#type: u8 }
impl U for S208 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<u8>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S209 { r#type: Option<u8>, a0: u64 }
impl U for S209 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<u64>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S210 { a0: Option<u8>, self_: String }
impl U for S210 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<String>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S211 { self_: Option<u8>, serde: File }
impl U for S211 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<File>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S212 { serde: Option<u8>, i: () }
impl U for S212 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<()>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S213 { i: Option<u8>, value: bool }
impl U for S213 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<bool>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S214 { value: Option<u8>, a1: Vec<u16> }
impl U for S214 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<Vec<u16>>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S215 { a1: Option<u8>, usize: Option<u8> }
impl U for S215 {
    fn values() -> Vec<Self> {
        combos(&[n::<Option<u8>>(), n::<Option<u8>>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S216 { s: u8, d: u8, r#type: u8 }
impl U for S216 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S217 { d: u8, r#type: u8, a0: u64 }
impl U for S217 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S218 { r#type: u8, a0: u8, self_: String }
impl U for S218 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]), self_: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S219 { a0: u8, self_: u8, serde: File }
impl U for S219 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]), serde: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S220 { self_: u8, serde: u64, i: u8 }
impl U for S220 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]), i: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S221 { serde: u8, i: u64, value: u64 }
impl U for S221 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]), value: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S222 { i: u8, value: u64, a1: String }
impl U for S222 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]), a1: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S223 { value: u8, a1: u64, usize: File }
impl U for S223 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]), usize: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S224 { a1: u8, usize: String, x: u8 }
impl U for S224 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]), x: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S225 { usize: u8, x: String, s: u64 }
impl U for S225 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]), s: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S226 { x: u8, s: String, d: String }
impl U for S226 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]), d: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S227 { s: u8, d: String, r#type: File }
impl U for S227 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S228 { d: u8, r#type: File, a0: u8 }
impl U for S228 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S229 { r#type: u8, a0: File, self_: u64 }
impl U for S229 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]), self_: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S230 { a0: u8, self_: File, serde: String }
impl U for S230 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]), serde: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S231 { self_: u8, serde: File, i: File }
impl U for S231 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]), i: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S232 { serde: u64, i: u8, value: u8 }
impl U for S232 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]), value: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S233 { i: u64, value: u8, a1: u64 }
impl U for S233 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]), a1: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S234 { value: u64, a1: u8, usize: String }
impl U for S234 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]), usize: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S235 { a1: u64, usize: u8, x: File }
impl U for S235 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]), x: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S236 { usize: u64, x: u64, s: u8 }
impl U for S236 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]), s: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S237 { x: u64, s: u64, d: u64 }
impl U for S237 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]), d: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S238 { s: u64, d: u64, r#type: String }
impl U for S238 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S239 { d: u64, r#type: u64, a0: File }
impl U for S239 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S240 { r#type: u64, a0: String, self_: u8 }
impl U for S240 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]), self_: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S241 { a0: u64, self_: String, serde: u64 }
impl U for S241 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]), serde: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S242 { self_: u64, serde: String, i: String }
impl U for S242 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]), i: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S243 { serde: u64, i: String, value: File }
impl U for S243 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]), value: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S244 { i: u64, value: File, a1: u8 }
impl U for S244 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]), a1: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S245 { value: u64, a1: File, usize: u64 }
impl U for S245 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]), usize: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S246 { a1: u64, usize: File, x: String }
impl U for S246 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]), x: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S247 { usize: u64, x: File, s: File }
impl U for S247 {
    fn values() -> Vec<Self> {
        combos(&[n::<u64>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]), s: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S248 { x: String, s: u8, d: u8 }
impl U for S248 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]), d: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S249 { s: String, d: u8, r#type: u64 }
impl U for S249 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S250 { d: String, r#type: u8, a0: String }
impl U for S250 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S251 { r#type: String, a0: u8, self_: File }
impl U for S251 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]), self_: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S252 { a0: String, self_: u64, serde: u8 }
impl U for S252 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]), serde: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S253 { self_: String, serde: u64, i: u64 }
impl U for S253 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]), i: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S254 { serde: String, i: u64, value: String }
impl U for S254 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]), value: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S255 { i: String, value: u64, a1: File }
impl U for S255 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]), a1: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S256 { value: String, a1: String, usize: u8 }
impl U for S256 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]), usize: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S257 { a1: String, usize: String, x: u64 }
impl U for S257 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]), x: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S258 { usize: String, x: String, s: String }
impl U for S258 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]), s: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S259 { x: String, s: String, d: File }
impl U for S259 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]), d: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S260 { s: String, d: File, r#type: u8 }
impl U for S260 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S261 { d: String, r#type: File, a0: u64 }
impl U for S261 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S262 { r#type: String, a0: File, self_: String }
impl U for S262 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]), self_: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S263 { a0: String, self_: File, serde: File }
impl U for S263 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]), serde: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S264 { self_: File, serde: u8, i: u8 }
impl U for S264 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<u8>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]), i: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S265 { serde: File, i: u8, value: u64 }
impl U for S265 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<u64>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]), value: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S266 { i: File, value: u8, a1: String }
impl U for S266 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]), a1: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S267 { value: File, a1: u8, usize: File }
impl U for S267 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<File>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]), usize: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S268 { a1: File, usize: u64, x: u8 }
impl U for S268 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<u8>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]), x: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S269 { usize: File, x: u64, s: u64 }
impl U for S269 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self { usize: pick(c[0]), x: pick(c[1]), s: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.usize.same(&o.usize) && self.x.same(&o.x) && self.s.same(&o.s)
    }
}
#[derive(Object)]
pub struct S270 { x: File, s: u64, d: String }
impl U for S270 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<String>()]).into_iter().map(|c| Self { x: pick(c[0]), s: pick(c[1]), d: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.x.same(&o.x) && self.s.same(&o.s) && self.d.same(&o.d)
    }
}
#[derive(Object)]
pub struct S271 { s: File, d: u64, r#type: File }
impl U for S271 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u64>(), n::<File>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type)
    }
}
#[derive(Object)]
pub struct S272 { d: File, r#type: String, a0: u8 }
impl U for S272 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<u8>()]).into_iter().map(|c| Self { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0)
    }
}
#[derive(Object)]
pub struct S273 { r#type: File, a0: String, self_: u64 }
impl U for S273 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<u64>()]).into_iter().map(|c| Self { r#type: pick(c[0]), a0: pick(c[1]), self_: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_)
    }
}
#[derive(Object)]
pub struct S274 { a0: File, self_: String, serde: String }
impl U for S274 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<String>()]).into_iter().map(|c| Self { a0: pick(c[0]), self_: pick(c[1]), serde: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S275 { self_: File, serde: String, i: File }
impl U for S275 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<String>(), n::<File>()]).into_iter().map(|c| Self { self_: pick(c[0]), serde: pick(c[1]), i: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i)
    }
}
#[derive(Object)]
pub struct S276 { serde: File, i: File, value: u8 }
impl U for S276 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self { serde: pick(c[0]), i: pick(c[1]), value: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value)
    }
}
#[derive(Object)]
pub struct S277 { i: File, value: File, a1: u64 }
impl U for S277 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<u64>()]).into_iter().map(|c| Self { i: pick(c[0]), value: pick(c[1]), a1: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1)
    }
}
#[derive(Object)]
pub struct S278 { value: File, a1: File, usize: String }
impl U for S278 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<String>()]).into_iter().map(|c| Self { value: pick(c[0]), a1: pick(c[1]), usize: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S279 { a1: File, usize: File, x: File }
impl U for S279 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<File>(), n::<File>()]).into_iter().map(|c| Self { a1: pick(c[0]), usize: pick(c[1]), x: pick(c[2]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S280 { s: u8, d: u64, r#type: u8, a0: u32, self_: bool, serde: u16 }
impl U for S280 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u64>(), n::<u8>(), n::<u32>(), n::<bool>(), n::<u16>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]), a0: pick(c[3]), self_: pick(c[4]), serde: pick(c[5]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub struct S281 { s: u8, d: u8, r#type: u8, a0: u8, self_: u8, serde: u8, i: u8, value: u8, a1: u8, usize: u8, x: String }
impl U for S281 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<u8>(), n::<String>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]), a0: pick(c[3]), self_: pick(c[4]), serde: pick(c[5]), i: pick(c[6]), value: pick(c[7]), a1: pick(c[8]), usize: pick(c[9]), x: pick(c[10]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S282 { s: String, d: u64, r#type: u64, a0: u64, self_: u64, serde: u64, i: u64, value: u64, a1: u64, usize: u64, x: u64 }
impl U for S282 {
    fn values() -> Vec<Self> {
        combos(&[n::<String>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>(), n::<u64>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]), a0: pick(c[3]), self_: pick(c[4]), serde: pick(c[5]), i: pick(c[6]), value: pick(c[7]), a1: pick(c[8]), usize: pick(c[9]), x: pick(c[10]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize) && self.x.same(&o.x)
    }
}
#[derive(Object)]
pub struct S283 { s: File, d: u8, r#type: File, a0: u8, self_: File, serde: u8, i: File, value: u8, a1: File, usize: u8 }
impl U for S283 {
    fn values() -> Vec<Self> {
        combos(&[n::<File>(), n::<u8>(), n::<File>(), n::<u8>(), n::<File>(), n::<u8>(), n::<File>(), n::<u8>(), n::<File>(), n::<u8>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]), a0: pick(c[3]), self_: pick(c[4]), serde: pick(c[5]), i: pick(c[6]), value: pick(c[7]), a1: pick(c[8]), usize: pick(c[9]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde) && self.i.same(&o.i) && self.value.same(&o.value) && self.a1.same(&o.a1) && self.usize.same(&o.usize)
    }
}
#[derive(Object)]
pub struct S284 { s: u8, d: i128, r#type: char, a0: f64, self_: (u8, u32), serde: [u16; 3] }
impl U for S284 {
    fn values() -> Vec<Self> {
        combos(&[n::<u8>(), n::<i128>(), n::<char>(), n::<f64>(), n::<(u8, u32)>(), n::<[u16; 3]>()]).into_iter().map(|c| Self { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]), a0: pick(c[3]), self_: pick(c[4]), serde: pick(c[5]) }).collect()
    }
    fn same(&self, o: &Self) -> bool {
        self.s.same(&o.s) && self.d.same(&o.d) && self.r#type.same(&o.r#type) && self.a0.same(&o.a0) && self.self_.same(&o.self_) && self.serde.same(&o.serde)
    }
}
#[derive(Object)]
pub enum E285 {
}
impl U for E285 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v
    }
    fn same(&self, _: &Self) -> bool {
        match *self {}
    }
}
#[derive(Object)]
pub enum E286 {
    Ok,
}
impl U for E286 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
        }
    }
}
#[derive(Object)]
pub enum E287 {
    Ok(),
}
impl U for E287 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
        }
    }
}
#[derive(Object)]
pub enum E288 {
    Ok {  },
}
impl U for E288 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
        }
    }
}
#[derive(Object)]
pub enum E289 {
    Ok(u8),
}
impl U for E289 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
        }
    }
}
#[derive(Object)]
pub enum E290 {
    Ok(String),
}
impl U for E290 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
        }
    }
}
#[derive(Object)]
pub enum E291 {
    Ok { s: u8 },
}
impl U for E291 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
        }
    }
}
#[derive(Object)]
pub enum E292 {
    Ok { s: File },
}
impl U for E292 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
        }
    }
}
#[derive(Object)]
pub enum E293 {
    Ok(u8, String),
}
impl U for E293 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
        }
    }
}
#[derive(Object)]
pub enum E294 {
    Ok { s: String, d: u64 },
}
impl U for E294 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
        }
    }
}
#[derive(Object)]
pub enum E295 {
    Ok,
    None,
}
impl U for E295 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E296 {
    Ok,
    None(),
}
impl U for E296 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E297 {
    Ok,
    None {  },
}
impl U for E297 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E298 {
    Ok,
    None(u8),
}
impl U for E298 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E299 {
    Ok,
    None(String),
}
impl U for E299 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E300 {
    Ok,
    None { d: u8 },
}
impl U for E300 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E301 {
    Ok,
    None { d: File },
}
impl U for E301 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E302 {
    Ok,
    None(u8, String),
}
impl U for E302 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E303 {
    Ok,
    None { d: String, r#type: u64 },
}
impl U for E303 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E304 {
    Ok(),
    None,
}
impl U for E304 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E305 {
    Ok(),
    None(),
}
impl U for E305 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E306 {
    Ok(),
    None {  },
}
impl U for E306 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E307 {
    Ok(),
    None(u8),
}
impl U for E307 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E308 {
    Ok(),
    None(String),
}
impl U for E308 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E309 {
    Ok(),
    None { d: u8 },
}
impl U for E309 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E310 {
    Ok(),
    None { d: File },
}
impl U for E310 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E311 {
    Ok(),
    None(u8, String),
}
impl U for E311 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E312 {
    Ok(),
    None { d: String, r#type: u64 },
}
impl U for E312 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok());
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(), Self::Ok()) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E313 {
    Ok {  },
    None,
}
impl U for E313 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E314 {
    Ok {  },
    None(),
}
impl U for E314 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E315 {
    Ok {  },
    None {  },
}
impl U for E315 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E316 {
    Ok {  },
    None(u8),
}
impl U for E316 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E317 {
    Ok {  },
    None(String),
}
impl U for E317 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E318 {
    Ok {  },
    None { d: u8 },
}
impl U for E318 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E319 {
    Ok {  },
    None { d: File },
}
impl U for E319 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E320 {
    Ok {  },
    None(u8, String),
}
impl U for E320 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E321 {
    Ok {  },
    None { d: String, r#type: u64 },
}
impl U for E321 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok {  });
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok {  }, Self::Ok {  }) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E322 {
    Ok(u8),
    None,
}
impl U for E322 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E323 {
    Ok(u8),
    None(),
}
impl U for E323 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E324 {
    Ok(u8),
    None {  },
}
impl U for E324 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E325 {
    Ok(u8),
    None(u8),
}
impl U for E325 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E326 {
    Ok(u8),
    None(String),
}
impl U for E326 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E327 {
    Ok(u8),
    None { d: u8 },
}
impl U for E327 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E328 {
    Ok(u8),
    None { d: File },
}
impl U for E328 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E329 {
    Ok(u8),
    None(u8, String),
}
impl U for E329 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E330 {
    Ok(u8),
    None { d: String, r#type: u64 },
}
impl U for E330 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E331 {
    Ok(String),
    None,
}
impl U for E331 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E332 {
    Ok(String),
    None(),
}
impl U for E332 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E333 {
    Ok(String),
    None {  },
}
impl U for E333 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E334 {
    Ok(String),
    None(u8),
}
impl U for E334 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E335 {
    Ok(String),
    None(String),
}
impl U for E335 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E336 {
    Ok(String),
    None { d: u8 },
}
impl U for E336 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E337 {
    Ok(String),
    None { d: File },
}
impl U for E337 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E338 {
    Ok(String),
    None(u8, String),
}
impl U for E338 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E339 {
    Ok(String),
    None { d: String, r#type: u64 },
}
impl U for E339 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E340 {
    Ok { s: u8 },
    None,
}
impl U for E340 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E341 {
    Ok { s: u8 },
    None(),
}
impl U for E341 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E342 {
    Ok { s: u8 },
    None {  },
}
impl U for E342 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E343 {
    Ok { s: u8 },
    None(u8),
}
impl U for E343 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E344 {
    Ok { s: u8 },
    None(String),
}
impl U for E344 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E345 {
    Ok { s: u8 },
    None { d: u8 },
}
impl U for E345 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E346 {
    Ok { s: u8 },
    None { d: File },
}
impl U for E346 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E347 {
    Ok { s: u8 },
    None(u8, String),
}
impl U for E347 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E348 {
    Ok { s: u8 },
    None { d: String, r#type: u64 },
}
impl U for E348 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E349 {
    Ok { s: File },
    None,
}
impl U for E349 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E350 {
    Ok { s: File },
    None(),
}
impl U for E350 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E351 {
    Ok { s: File },
    None {  },
}
impl U for E351 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E352 {
    Ok { s: File },
    None(u8),
}
impl U for E352 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E353 {
    Ok { s: File },
    None(String),
}
impl U for E353 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E354 {
    Ok { s: File },
    None { d: u8 },
}
impl U for E354 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E355 {
    Ok { s: File },
    None { d: File },
}
impl U for E355 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E356 {
    Ok { s: File },
    None(u8, String),
}
impl U for E356 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E357 {
    Ok { s: File },
    None { d: String, r#type: u64 },
}
impl U for E357 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0 }, Self::Ok { s: r0 }) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E358 {
    Ok(u8, String),
    None,
}
impl U for E358 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E359 {
    Ok(u8, String),
    None(),
}
impl U for E359 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E360 {
    Ok(u8, String),
    None {  },
}
impl U for E360 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E361 {
    Ok(u8, String),
    None(u8),
}
impl U for E361 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E362 {
    Ok(u8, String),
    None(String),
}
impl U for E362 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E363 {
    Ok(u8, String),
    None { d: u8 },
}
impl U for E363 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E364 {
    Ok(u8, String),
    None { d: File },
}
impl U for E364 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E365 {
    Ok(u8, String),
    None(u8, String),
}
impl U for E365 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E366 {
    Ok(u8, String),
    None { d: String, r#type: u64 },
}
impl U for E366 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1), Self::Ok(r0, r1)) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E367 {
    Ok { s: String, d: u64 },
    None,
}
impl U for E367 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None, Self::None) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E368 {
    Ok { s: String, d: u64 },
    None(),
}
impl U for E368 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None());
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(), Self::None()) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E369 {
    Ok { s: String, d: u64 },
    None {  },
}
impl U for E369 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None {  });
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None {  }, Self::None {  }) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E370 {
    Ok { s: String, d: u64 },
    None(u8),
}
impl U for E370 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E371 {
    Ok { s: String, d: u64 },
    None(String),
}
impl U for E371 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E372 {
    Ok { s: String, d: u64 },
    None { d: u8 },
}
impl U for E372 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E373 {
    Ok { s: String, d: u64 },
    None { d: File },
}
impl U for E373 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E374 {
    Ok { s: String, d: u64 },
    None(u8, String),
}
impl U for E374 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>(), n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0, l1), Self::None(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E375 {
    Ok { s: String, d: u64 },
    None { d: String, r#type: u64 },
}
impl U for E375 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E376 {
    Ok,
    None,
    String,
}
impl U for E376 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E377 {
    Ok,
    None,
    String(u8),
}
impl U for E377 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E378 {
    Ok,
    None,
    String(String),
}
impl U for E378 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E379 {
    Ok,
    None,
    String { r#type: String, a0: u64 },
}
impl U for E379 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E380 {
    Ok,
    None(u8),
    String,
}
impl U for E380 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E381 {
    Ok,
    None(u8),
    String(u8),
}
impl U for E381 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E382 {
    Ok,
    None(u8),
    String(String),
}
impl U for E382 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E383 {
    Ok,
    None(u8),
    String { r#type: String, a0: u64 },
}
impl U for E383 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E384 {
    Ok,
    None(String),
    String,
}
impl U for E384 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E385 {
    Ok,
    None(String),
    String(u8),
}
impl U for E385 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E386 {
    Ok,
    None(String),
    String(String),
}
impl U for E386 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E387 {
    Ok,
    None(String),
    String { r#type: String, a0: u64 },
}
impl U for E387 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E388 {
    Ok,
    None { d: String, r#type: u64 },
    String,
}
impl U for E388 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E389 {
    Ok,
    None { d: String, r#type: u64 },
    String(u8),
}
impl U for E389 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E390 {
    Ok,
    None { d: String, r#type: u64 },
    String(String),
}
impl U for E390 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E391 {
    Ok,
    None { d: String, r#type: u64 },
    String { r#type: String, a0: u64 },
}
impl U for E391 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E392 {
    Ok(u8),
    None,
    String,
}
impl U for E392 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E393 {
    Ok(u8),
    None,
    String(u8),
}
impl U for E393 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E394 {
    Ok(u8),
    None,
    String(String),
}
impl U for E394 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E395 {
    Ok(u8),
    None,
    String { r#type: String, a0: u64 },
}
impl U for E395 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E396 {
    Ok(u8),
    None(u8),
    String,
}
impl U for E396 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E397 {
    Ok(u8),
    None(u8),
    String(u8),
}
impl U for E397 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E398 {
    Ok(u8),
    None(u8),
    String(String),
}
impl U for E398 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E399 {
    Ok(u8),
    None(u8),
    String { r#type: String, a0: u64 },
}
impl U for E399 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E400 {
    Ok(u8),
    None(String),
    String,
}
impl U for E400 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E401 {
    Ok(u8),
    None(String),
    String(u8),
}
impl U for E401 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E402 {
    Ok(u8),
    None(String),
    String(String),
}
impl U for E402 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E403 {
    Ok(u8),
    None(String),
    String { r#type: String, a0: u64 },
}
impl U for E403 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E404 {
    Ok(u8),
    None { d: String, r#type: u64 },
    String,
}
impl U for E404 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E405 {
    Ok(u8),
    None { d: String, r#type: u64 },
    String(u8),
}
impl U for E405 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E406 {
    Ok(u8),
    None { d: String, r#type: u64 },
    String(String),
}
impl U for E406 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E407 {
    Ok(u8),
    None { d: String, r#type: u64 },
    String { r#type: String, a0: u64 },
}
impl U for E407 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E408 {
    Ok(String),
    None,
    String,
}
impl U for E408 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E409 {
    Ok(String),
    None,
    String(u8),
}
impl U for E409 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E410 {
    Ok(String),
    None,
    String(String),
}
impl U for E410 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E411 {
    Ok(String),
    None,
    String { r#type: String, a0: u64 },
}
impl U for E411 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E412 {
    Ok(String),
    None(u8),
    String,
}
impl U for E412 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E413 {
    Ok(String),
    None(u8),
    String(u8),
}
impl U for E413 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E414 {
    Ok(String),
    None(u8),
    String(String),
}
impl U for E414 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E415 {
    Ok(String),
    None(u8),
    String { r#type: String, a0: u64 },
}
impl U for E415 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E416 {
    Ok(String),
    None(String),
    String,
}
impl U for E416 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E417 {
    Ok(String),
    None(String),
    String(u8),
}
impl U for E417 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E418 {
    Ok(String),
    None(String),
    String(String),
}
impl U for E418 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E419 {
    Ok(String),
    None(String),
    String { r#type: String, a0: u64 },
}
impl U for E419 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E420 {
    Ok(String),
    None { d: String, r#type: u64 },
    String,
}
impl U for E420 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E421 {
    Ok(String),
    None { d: String, r#type: u64 },
    String(u8),
}
impl U for E421 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E422 {
    Ok(String),
    None { d: String, r#type: u64 },
    String(String),
}
impl U for E422 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E423 {
    Ok(String),
    None { d: String, r#type: u64 },
    String { r#type: String, a0: u64 },
}
impl U for E423 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E424 {
    Ok { s: String, d: u64 },
    None,
    String,
}
impl U for E424 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None);
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E425 {
    Ok { s: String, d: u64 },
    None,
    String(u8),
}
impl U for E425 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E426 {
    Ok { s: String, d: u64 },
    None,
    String(String),
}
impl U for E426 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None, Self::None) => true,
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E427 {
    Ok { s: String, d: u64 },
    None,
    String { r#type: String, a0: u64 },
}
impl U for E427 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E428 {
    Ok { s: String, d: u64 },
    None(u8),
    String,
}
impl U for E428 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E429 {
    Ok { s: String, d: u64 },
    None(u8),
    String(u8),
}
impl U for E429 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E430 {
    Ok { s: String, d: u64 },
    None(u8),
    String(String),
}
impl U for E430 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E431 {
    Ok { s: String, d: u64 },
    None(u8),
    String { r#type: String, a0: u64 },
}
impl U for E431 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E432 {
    Ok { s: String, d: u64 },
    None(String),
    String,
}
impl U for E432 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E433 {
    Ok { s: String, d: u64 },
    None(String),
    String(u8),
}
impl U for E433 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E434 {
    Ok { s: String, d: u64 },
    None(String),
    String(String),
}
impl U for E434 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E435 {
    Ok { s: String, d: u64 },
    None(String),
    String { r#type: String, a0: u64 },
}
impl U for E435 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E436 {
    Ok { s: String, d: u64 },
    None { d: String, r#type: u64 },
    String,
}
impl U for E436 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E437 {
    Ok { s: String, d: u64 },
    None { d: String, r#type: u64 },
    String(u8),
}
impl U for E437 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E438 {
    Ok { s: String, d: u64 },
    None { d: String, r#type: u64 },
    String(String),
}
impl U for E438 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E439 {
    Ok { s: String, d: u64 },
    None { d: String, r#type: u64 },
    String { r#type: String, a0: u64 },
}
impl U for E439 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]) }));
        v.extend(combos(&[n::<String>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1 }, Self::Ok { s: r0, d: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::None { d: l0, r#type: l1 }, Self::None { d: r0, r#type: r1 }) => l0.same(r0) && l1.same(r1),
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E440 {
    Ok(u8, u32, u8),
    None,
    String(u32, u8),
}
impl U for E440 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<u32>(), n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E441 {
    Ok(u8),
    None { d: u8 },
    String(u8, u8),
}
impl U for E441 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>(), n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E442 {
    Ok { s: u8, d: u32, r#type: u8 },
    None,
    String { r#type: u32, a0: u8 },
}
impl U for E442 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>(), n::<u32>(), n::<u8>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<u8>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E443 {
    Ok(u8),
    None { d: u8 },
    String(u8, u8),
}
impl U for E443 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>(), n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E444 {
    Ok(u64, u32, u64),
    None,
    String(u32, u64),
}
impl U for E444 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u64>(), n::<u32>(), n::<u64>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<u64>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E445 {
    Ok(u64),
    None { d: u64 },
    String(u64, u64),
}
impl U for E445 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u64>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<u64>(), n::<u64>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E446 {
    Ok { s: u64, d: u32, r#type: u64 },
    None,
    String { r#type: u32, a0: u64 },
}
impl U for E446 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u64>(), n::<u32>(), n::<u64>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E447 {
    Ok(u64),
    None { d: u64 },
    String(u64, u64),
}
impl U for E447 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u64>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u64>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<u64>(), n::<u64>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E448 {
    Ok(String, u32, String),
    None,
    String(u32, String),
}
impl U for E448 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u32>(), n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E449 {
    Ok(String),
    None { d: String },
    String(String, String),
}
impl U for E449 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<String>(), n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E450 {
    Ok { s: String, d: u32, r#type: String },
    None,
    String { r#type: u32, a0: String },
}
impl U for E450 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u32>(), n::<String>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<String>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E451 {
    Ok(String),
    None { d: String },
    String(String, String),
}
impl U for E451 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<String>(), n::<String>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E452 {
    Ok(File, u32, File),
    None,
    String(u32, File),
}
impl U for E452 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>(), n::<u32>(), n::<File>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<File>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E453 {
    Ok(File),
    None { d: File },
    String(File, File),
}
impl U for E453 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<File>(), n::<File>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E454 {
    Ok { s: File, d: u32, r#type: File },
    None,
    String { r#type: u32, a0: File },
}
impl U for E454 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>(), n::<u32>(), n::<File>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<File>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E455 {
    Ok(File),
    None { d: File },
    String(File, File),
}
impl U for E455 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<File>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<File>(), n::<File>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E456 {
    Ok((), u32, ()),
    None,
    String(u32, ()),
}
impl U for E456 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<()>(), n::<u32>(), n::<()>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<()>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E457 {
    Ok(()),
    None { d: () },
    String((), ()),
}
impl U for E457 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<()>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<()>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<()>(), n::<()>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E458 {
    Ok { s: (), d: u32, r#type: () },
    None,
    String { r#type: u32, a0: () },
}
impl U for E458 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<()>(), n::<u32>(), n::<()>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<()>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E459 {
    Ok(()),
    None { d: () },
    String((), ()),
}
impl U for E459 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<()>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<()>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<()>(), n::<()>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E460 {
    Ok(bool, u32, bool),
    None,
    String(u32, bool),
}
impl U for E460 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<bool>(), n::<u32>(), n::<bool>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<bool>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E461 {
    Ok(bool),
    None { d: bool },
    String(bool, bool),
}
impl U for E461 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<bool>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<bool>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<bool>(), n::<bool>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E462 {
    Ok { s: bool, d: u32, r#type: bool },
    None,
    String { r#type: u32, a0: bool },
}
impl U for E462 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<bool>(), n::<u32>(), n::<bool>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<bool>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E463 {
    Ok(bool),
    None { d: bool },
    String(bool, bool),
}
impl U for E463 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<bool>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<bool>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<bool>(), n::<bool>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E464 {
    Ok(Vec<u16>, u32, Vec<u16>),
    None,
    String(u32, Vec<u16>),
}
impl U for E464 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Vec<u16>>(), n::<u32>(), n::<Vec<u16>>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<Vec<u16>>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E465 {
    Ok(Vec<u16>),
    None { d: Vec<u16> },
    String(Vec<u16>, Vec<u16>),
}
impl U for E465 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Vec<u16>>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<Vec<u16>>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<Vec<u16>>(), n::<Vec<u16>>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E466 {
    Ok { s: Vec<u16>, d: u32, r#type: Vec<u16> },
    None,
    String { r#type: u32, a0: Vec<u16> },
}
impl U for E466 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Vec<u16>>(), n::<u32>(), n::<Vec<u16>>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<Vec<u16>>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E467 {
    Ok(Vec<u16>),
    None { d: Vec<u16> },
    String(Vec<u16>, Vec<u16>),
}
impl U for E467 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Vec<u16>>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<Vec<u16>>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<Vec<u16>>(), n::<Vec<u16>>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E468 {
    Ok(Option<u8>, u32, Option<u8>),
    None,
    String(u32, Option<u8>),
}
impl U for E468 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Option<u8>>(), n::<u32>(), n::<Option<u8>>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<Option<u8>>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2), Self::Ok(r0, r1, r2)) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E469 {
    Ok(Option<u8>),
    None { d: Option<u8> },
    String(Option<u8>, Option<u8>),
}
impl U for E469 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Option<u8>>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<Option<u8>>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<Option<u8>>(), n::<Option<u8>>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E470 {
    Ok { s: Option<u8>, d: u32, r#type: Option<u8> },
    None,
    String { r#type: u32, a0: Option<u8> },
}
impl U for E470 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Option<u8>>(), n::<u32>(), n::<Option<u8>>()]).into_iter().map(|c| Self::Ok { s: pick(c[0]), d: pick(c[1]), r#type: pick(c[2]) }));
        v.push(Self::None);
        v.extend(combos(&[n::<u32>(), n::<Option<u8>>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]), a0: pick(c[1]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok { s: l0, d: l1, r#type: l2 }, Self::Ok { s: r0, d: r1, r#type: r2 }) => l0.same(r0) && l1.same(r1) && l2.same(r2),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0, a0: l1 }, Self::String { r#type: r0, a0: r1 }) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E471 {
    Ok(Option<u8>),
    None { d: Option<u8> },
    String(Option<u8>, Option<u8>),
}
impl U for E471 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<Option<u8>>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<Option<u8>>()]).into_iter().map(|c| Self::None { d: pick(c[0]) }));
        v.extend(combos(&[n::<Option<u8>>(), n::<Option<u8>>()]).into_iter().map(|c| Self::String(pick(c[0]), pick(c[1]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None { d: l0 }, Self::None { d: r0 }) => l0.same(r0),
            (Self::String(l0, l1), Self::String(r0, r1)) => l0.same(r0) && l1.same(r1),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
#[repr(i16)]
pub enum E472 {
    Ok = 5,
    None = -3,
    String = 100,
}
impl U for E472 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.push(Self::String);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
#[repr(u8)]
pub enum E473 {
    Ok = 0,
    None = 128,
    String = 255,
    Err = 3,
}
impl U for E473 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.push(Self::String);
        v.push(Self::Err);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            (Self::Err, Self::Err) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
#[repr(u8)]
pub enum E474 {
    Ok(u8) = 200,
    None = 7,
    String { r#type: u64 } = 9,
}
impl U for E474 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<u64>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0 }, Self::String { r#type: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E475 {
    Ok,
    None,
    String,
    Err,
    Some,
    V0,
    V1,
    V2,
    V3,
    V4,
    V5,
    V6,
    V7,
    V8,
    V9,
    V10,
    V11,
    V12,
    V13,
    V14,
    V15,
    V16,
    V17,
    V18,
    V19,
    V20,
    V21,
    V22,
    V23,
    V24,
    V25,
    V26,
    V27,
    V28,
    V29,
    V30,
    V31,
    V32,
    V33,
    V34,
    V35,
    V36,
    V37,
    V38,
    V39,
    V40,
    V41,
    V42,
    V43,
    V44,
    V45,
    V46,
    V47,
    V48,
    V49,
    V50,
    V51,
    V52,
    V53,
    V54,
    V55,
    V56,
    V57,
    V58,
    V59,
    V60,
    V61,
    V62,
    V63,
    V64,
    V65,
    V66,
    V67,
    V68,
    V69,
    V70,
    V71,
    V72,
    V73,
    V74,
    V75,
    V76,
    V77,
    V78,
    V79,
    V80,
    V81,
    V82,
    V83,
    V84,
    V85,
    V86,
    V87,
    V88,
    V89,
    V90,
    V91,
    V92,
    V93,
    V94,
    V95,
    V96,
    V97,
    V98,
    V99,
    V100,
    V101,
    V102,
    V103,
    V104,
    V105,
    V106,
    V107,
    V108,
    V109,
    V110,
    V111,
    V112,
    V113,
    V114,
    V115,
    V116,
    V117,
    V118,
    V119,
    V120,
    V121,
    V122,
    V123,
    V124,
    V125,
    V126,
    V127,
    V128,
    V129,
    V130,
    V131,
    V132,
    V133,
    V134,
    V135,
    V136,
    V137,
    V138,
    V139,
    V140,
    V141,
    V142,
    V143,
    V144,
    V145,
    V146,
    V147,
    V148,
    V149,
    V150,
    V151,
    V152,
    V153,
    V154,
    V155,
    V156,
    V157,
    V158,
    V159,
    V160,
    V161,
    V162,
    V163,
    V164,
    V165,
    V166,
    V167,
    V168,
    V169,
    V170,
    V171,
    V172,
    V173,
    V174,
    V175,
    V176,
    V177,
    V178,
    V179,
    V180,
    V181,
    V182,
    V183,
    V184,
    V185,
    V186,
    V187,
    V188,
    V189,
    V190,
    V191,
    V192,
    V193,
    V194,
    V195,
    V196,
    V197,
    V198,
    V199,
    V200,
    V201,
    V202,
    V203,
    V204,
    V205,
    V206,
    V207,
    V208,
    V209,
    V210,
    V211,
    V212,
    V213,
    V214,
    V215,
    V216,
    V217,
    V218,
    V219,
    V220,
    V221,
    V222,
    V223,
    V224,
    V225,
    V226,
    V227,
    V228,
    V229,
    V230,
    V231,
    V232,
    V233,
    V234,
    V235,
    V236,
    V237,
    V238,
    V239,
    V240,
    V241,
    V242,
    V243,
    V244,
    V245,
    V246,
    V247,
    V248,
    V249,
    V250,
    V251,
    V252,
    V253,
    V254,
    V255,
    V256,
    V257,
    V258,
    V259,
    V260,
    V261,
    V262,
    V263,
    V264,
    V265,
    V266,
    V267,
    V268,
    V269,
    V270,
    V271,
    V272,
    V273,
    V274,
    V275,
    V276,
    V277,
    V278,
    V279,
    V280,
    V281,
    V282,
    V283,
    V284,
    V285,
    V286,
    V287,
    V288,
    V289,
    V290,
    V291,
    V292,
    V293,
    V294,
}
impl U for E475 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.push(Self::Ok);
        v.push(Self::None);
        v.push(Self::String);
        v.push(Self::Err);
        v.push(Self::Some);
        v.push(Self::V0);
        v.push(Self::V1);
        v.push(Self::V2);
        v.push(Self::V3);
        v.push(Self::V4);
        v.push(Self::V5);
        v.push(Self::V6);
        v.push(Self::V7);
        v.push(Self::V8);
        v.push(Self::V9);
        v.push(Self::V10);
        v.push(Self::V11);
        v.push(Self::V12);
        v.push(Self::V13);
        v.push(Self::V14);
        v.push(Self::V15);
        v.push(Self::V16);
        v.push(Self::V17);
        v.push(Self::V18);
        v.push(Self::V19);
        v.push(Self::V20);
        v.push(Self::V21);
        v.push(Self::V22);
        v.push(Self::V23);
        v.push(Self::V24);
        v.push(Self::V25);
        v.push(Self::V26);
        v.push(Self::V27);
        v.push(Self::V28);
        v.push(Self::V29);
        v.push(Self::V30);
        v.push(Self::V31);
        v.push(Self::V32);
        v.push(Self::V33);
        v.push(Self::V34);
        v.push(Self::V35);
        v.push(Self::V36);
        v.push(Self::V37);
        v.push(Self::V38);
        v.push(Self::V39);
        v.push(Self::V40);
        v.push(Self::V41);
        v.push(Self::V42);
        v.push(Self::V43);
        v.push(Self::V44);
        v.push(Self::V45);
        v.push(Self::V46);
        v.push(Self::V47);
        v.push(Self::V48);
        v.push(Self::V49);
        v.push(Self::V50);
        v.push(Self::V51);
        v.push(Self::V52);
        v.push(Self::V53);
        v.push(Self::V54);
        v.push(Self::V55);
        v.push(Self::V56);
        v.push(Self::V57);
        v.push(Self::V58);
        v.push(Self::V59);
        v.push(Self::V60);
        v.push(Self::V61);
        v.push(Self::V62);
        v.push(Self::V63);
        v.push(Self::V64);
        v.push(Self::V65);
        v.push(Self::V66);
        v.push(Self::V67);
        v.push(Self::V68);
        v.push(Self::V69);
        v.push(Self::V70);
        v.push(Self::V71);
        v.push(Self::V72);
        v.push(Self::V73);
        v.push(Self::V74);
        v.push(Self::V75);
        v.push(Self::V76);
        v.push(Self::V77);
        v.push(Self::V78);
        v.push(Self::V79);
        v.push(Self::V80);
        v.push(Self::V81);
        v.push(Self::V82);
        v.push(Self::V83);
        v.push(Self::V84);
        v.push(Self::V85);
        v.push(Self::V86);
        v.push(Self::V87);
        v.push(Self::V88);
        v.push(Self::V89);
        v.push(Self::V90);
        v.push(Self::V91);
        v.push(Self::V92);
        v.push(Self::V93);
        v.push(Self::V94);
        v.push(Self::V95);
        v.push(Self::V96);
        v.push(Self::V97);
        v.push(Self::V98);
        v.push(Self::V99);
        v.push(Self::V100);
        v.push(Self::V101);
        v.push(Self::V102);
        v.push(Self::V103);
        v.push(Self::V104);
        v.push(Self::V105);
        v.push(Self::V106);
        v.push(Self::V107);
        v.push(Self::V108);
        v.push(Self::V109);
        v.push(Self::V110);
        v.push(Self::V111);
        v.push(Self::V112);
        v.push(Self::V113);
        v.push(Self::V114);
        v.push(Self::V115);
        v.push(Self::V116);
        v.push(Self::V117);
        v.push(Self::V118);
        v.push(Self::V119);
        v.push(Self::V120);
        v.push(Self::V121);
        v.push(Self::V122);
        v.push(Self::V123);
        v.push(Self::V124);
        v.push(Self::V125);
        v.push(Self::V126);
        v.push(Self::V127);
        v.push(Self::V128);
        v.push(Self::V129);
        v.push(Self::V130);
        v.push(Self::V131);
        v.push(Self::V132);
        v.push(Self::V133);
        v.push(Self::V134);
        v.push(Self::V135);
        v.push(Self::V136);
        v.push(Self::V137);
        v.push(Self::V138);
        v.push(Self::V139);
        v.push(Self::V140);
        v.push(Self::V141);
        v.push(Self::V142);
        v.push(Self::V143);
        v.push(Self::V144);
        v.push(Self::V145);
        v.push(Self::V146);
        v.push(Self::V147);
        v.push(Self::V148);
        v.push(Self::V149);
        v.push(Self::V150);
        v.push(Self::V151);
        v.push(Self::V152);
        v.push(Self::V153);
        v.push(Self::V154);
        v.push(Self::V155);
        v.push(Self::V156);
        v.push(Self::V157);
        v.push(Self::V158);
        v.push(Self::V159);
        v.push(Self::V160);
        v.push(Self::V161);
        v.push(Self::V162);
        v.push(Self::V163);
        v.push(Self::V164);
        v.push(Self::V165);
        v.push(Self::V166);
        v.push(Self::V167);
        v.push(Self::V168);
        v.push(Self::V169);
        v.push(Self::V170);
        v.push(Self::V171);
        v.push(Self::V172);
        v.push(Self::V173);
        v.push(Self::V174);
        v.push(Self::V175);
        v.push(Self::V176);
        v.push(Self::V177);
        v.push(Self::V178);
        v.push(Self::V179);
        v.push(Self::V180);
        v.push(Self::V181);
        v.push(Self::V182);
        v.push(Self::V183);
        v.push(Self::V184);
        v.push(Self::V185);
        v.push(Self::V186);
        v.push(Self::V187);
        v.push(Self::V188);
        v.push(Self::V189);
        v.push(Self::V190);
        v.push(Self::V191);
        v.push(Self::V192);
        v.push(Self::V193);
        v.push(Self::V194);
        v.push(Self::V195);
        v.push(Self::V196);
        v.push(Self::V197);
        v.push(Self::V198);
        v.push(Self::V199);
        v.push(Self::V200);
        v.push(Self::V201);
        v.push(Self::V202);
        v.push(Self::V203);
        v.push(Self::V204);
        v.push(Self::V205);
        v.push(Self::V206);
        v.push(Self::V207);
        v.push(Self::V208);
        v.push(Self::V209);
        v.push(Self::V210);
        v.push(Self::V211);
        v.push(Self::V212);
        v.push(Self::V213);
        v.push(Self::V214);
        v.push(Self::V215);
        v.push(Self::V216);
        v.push(Self::V217);
        v.push(Self::V218);
        v.push(Self::V219);
        v.push(Self::V220);
        v.push(Self::V221);
        v.push(Self::V222);
        v.push(Self::V223);
        v.push(Self::V224);
        v.push(Self::V225);
        v.push(Self::V226);
        v.push(Self::V227);
        v.push(Self::V228);
        v.push(Self::V229);
        v.push(Self::V230);
        v.push(Self::V231);
        v.push(Self::V232);
        v.push(Self::V233);
        v.push(Self::V234);
        v.push(Self::V235);
        v.push(Self::V236);
        v.push(Self::V237);
        v.push(Self::V238);
        v.push(Self::V239);
        v.push(Self::V240);
        v.push(Self::V241);
        v.push(Self::V242);
        v.push(Self::V243);
        v.push(Self::V244);
        v.push(Self::V245);
        v.push(Self::V246);
        v.push(Self::V247);
        v.push(Self::V248);
        v.push(Self::V249);
        v.push(Self::V250);
        v.push(Self::V251);
        v.push(Self::V252);
        v.push(Self::V253);
        v.push(Self::V254);
        v.push(Self::V255);
        v.push(Self::V256);
        v.push(Self::V257);
        v.push(Self::V258);
        v.push(Self::V259);
        v.push(Self::V260);
        v.push(Self::V261);
        v.push(Self::V262);
        v.push(Self::V263);
        v.push(Self::V264);
        v.push(Self::V265);
        v.push(Self::V266);
        v.push(Self::V267);
        v.push(Self::V268);
        v.push(Self::V269);
        v.push(Self::V270);
        v.push(Self::V271);
        v.push(Self::V272);
        v.push(Self::V273);
        v.push(Self::V274);
        v.push(Self::V275);
        v.push(Self::V276);
        v.push(Self::V277);
        v.push(Self::V278);
        v.push(Self::V279);
        v.push(Self::V280);
        v.push(Self::V281);
        v.push(Self::V282);
        v.push(Self::V283);
        v.push(Self::V284);
        v.push(Self::V285);
        v.push(Self::V286);
        v.push(Self::V287);
        v.push(Self::V288);
        v.push(Self::V289);
        v.push(Self::V290);
        v.push(Self::V291);
        v.push(Self::V292);
        v.push(Self::V293);
        v.push(Self::V294);
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok, Self::Ok) => true,
            (Self::None, Self::None) => true,
            (Self::String, Self::String) => true,
            (Self::Err, Self::Err) => true,
            (Self::Some, Self::Some) => true,
            (Self::V0, Self::V0) => true,
            (Self::V1, Self::V1) => true,
            (Self::V2, Self::V2) => true,
            (Self::V3, Self::V3) => true,
            (Self::V4, Self::V4) => true,
            (Self::V5, Self::V5) => true,
            (Self::V6, Self::V6) => true,
            (Self::V7, Self::V7) => true,
            (Self::V8, Self::V8) => true,
            (Self::V9, Self::V9) => true,
            (Self::V10, Self::V10) => true,
            (Self::V11, Self::V11) => true,
            (Self::V12, Self::V12) => true,
            (Self::V13, Self::V13) => true,
            (Self::V14, Self::V14) => true,
            (Self::V15, Self::V15) => true,
            (Self::V16, Self::V16) => true,
            (Self::V17, Self::V17) => true,
            (Self::V18, Self::V18) => true,
            (Self::V19, Self::V19) => true,
            (Self::V20, Self::V20) => true,
            (Self::V21, Self::V21) => true,
            (Self::V22, Self::V22) => true,
            (Self::V23, Self::V23) => true,
            (Self::V24, Self::V24) => true,
            (Self::V25, Self::V25) => true,
            (Self::V26, Self::V26) => true,
            (Self::V27, Self::V27) => true,
            (Self::V28, Self::V28) => true,
            (Self::V29, Self::V29) => true,
            (Self::V30, Self::V30) => true,
            (Self::V31, Self::V31) => true,
            (Self::V32, Self::V32) => true,
            (Self::V33, Self::V33) => true,
            (Self::V34, Self::V34) => true,
            (Self::V35, Self::V35) => true,
            (Self::V36, Self::V36) => true,
            (Self::V37, Self::V37) => true,
            (Self::V38, Self::V38) => true,
            (Self::V39, Self::V39) => true,
            (Self::V40, Self::V40) => true,
            (Self::V41, Self::V41) => true,
            (Self::V42, Self::V42) => true,
            (Self::V43, Self::V43) => true,
            (Self::V44, Self::V44) => true,
            (Self::V45, Self::V45) => true,
            (Self::V46, Self::V46) => true,
            (Self::V47, Self::V47) => true,
            (Self::V48, Self::V48) => true,
            (Self::V49, Self::V49) => true,
            (Self::V50, Self::V50) => true,
            (Self::V51, Self::V51) => true,
            (Self::V52, Self::V52) => true,
            (Self::V53, Self::V53) => true,
            (Self::V54, Self::V54) => true,
            (Self::V55, Self::V55) => true,
            (Self::V56, Self::V56) => true,
            (Self::V57, Self::V57) => true,
            (Self::V58, Self::V58) => true,
            (Self::V59, Self::V59) => true,
            (Self::V60, Self::V60) => true,
            (Self::V61, Self::V61) => true,
            (Self::V62, Self::V62) => true,
            (Self::V63, Self::V63) => true,
            (Self::V64, Self::V64) => true,
            (Self::V65, Self::V65) => true,
            (Self::V66, Self::V66) => true,
            (Self::V67, Self::V67) => true,
            (Self::V68, Self::V68) => true,
            (Self::V69, Self::V69) => true,
            (Self::V70, Self::V70) => true,
            (Self::V71, Self::V71) => true,
            (Self::V72, Self::V72) => true,
            (Self::V73, Self::V73) => true,
            (Self::V74, Self::V74) => true,
            (Self::V75, Self::V75) => true,
            (Self::V76, Self::V76) => true,
            (Self::V77, Self::V77) => true,
            (Self::V78, Self::V78) => true,
            (Self::V79, Self::V79) => true,
            (Self::V80, Self::V80) => true,
            (Self::V81, Self::V81) => true,
            (Self::V82, Self::V82) => true,
            (Self::V83, Self::V83) => true,
            (Self::V84, Self::V84) => true,
            (Self::V85, Self::V85) => true,
            (Self::V86, Self::V86) => true,
            (Self::V87, Self::V87) => true,
            (Self::V88, Self::V88) => true,
            (Self::V89, Self::V89) => true,
            (Self::V90, Self::V90) => true,
            (Self::V91, Self::V91) => true,
            (Self::V92, Self::V92) => true,
            (Self::V93, Self::V93) => true,
            (Self::V94, Self::V94) => true,
            (Self::V95, Self::V95) => true,
            (Self::V96, Self::V96) => true,
            (Self::V97, Self::V97) => true,
            (Self::V98, Self::V98) => true,
            (Self::V99, Self::V99) => true,
            (Self::V100, Self::V100) => true,
            (Self::V101, Self::V101) => true,
            (Self::V102, Self::V102) => true,
            (Self::V103, Self::V103) => true,
            (Self::V104, Self::V104) => true,
            (Self::V105, Self::V105) => true,
            (Self::V106, Self::V106) => true,
            (Self::V107, Self::V107) => true,
            (Self::V108, Self::V108) => true,
            (Self::V109, Self::V109) => true,
            (Self::V110, Self::V110) => true,
            (Self::V111, Self::V111) => true,
            (Self::V112, Self::V112) => true,
            (Self::V113, Self::V113) => true,
            (Self::V114, Self::V114) => true,
            (Self::V115, Self::V115) => true,
            (Self::V116, Self::V116) => true,
            (Self::V117, Self::V117) => true,
            (Self::V118, Self::V118) => true,
            (Self::V119, Self::V119) => true,
            (Self::V120, Self::V120) => true,
            (Self::V121, Self::V121) => true,
            (Self::V122, Self::V122) => true,
            (Self::V123, Self::V123) => true,
            (Self::V124, Self::V124) => true,
            (Self::V125, Self::V125) => true,
            (Self::V126, Self::V126) => true,
            (Self::V127, Self::V127) => true,
            (Self::V128, Self::V128) => true,
            (Self::V129, Self::V129) => true,
            (Self::V130, Self::V130) => true,
            (Self::V131, Self::V131) => true,
            (Self::V132, Self::V132) => true,
            (Self::V133, Self::V133) => true,
            (Self::V134, Self::V134) => true,
            (Self::V135, Self::V135) => true,
            (Self::V136, Self::V136) => true,
            (Self::V137, Self::V137) => true,
            (Self::V138, Self::V138) => true,
            (Self::V139, Self::V139) => true,
            (Self::V140, Self::V140) => true,
            (Self::V141, Self::V141) => true,
            (Self::V142, Self::V142) => true,
            (Self::V143, Self::V143) => true,
            (Self::V144, Self::V144) => true,
            (Self::V145, Self::V145) => true,
            (Self::V146, Self::V146) => true,
            (Self::V147, Self::V147) => true,
            (Self::V148, Self::V148) => true,
            (Self::V149, Self::V149) => true,
            (Self::V150, Self::V150) => true,
            (Self::V151, Self::V151) => true,
            (Self::V152, Self::V152) => true,
            (Self::V153, Self::V153) => true,
            (Self::V154, Self::V154) => true,
            (Self::V155, Self::V155) => true,
            (Self::V156, Self::V156) => true,
            (Self::V157, Self::V157) => true,
            (Self::V158, Self::V158) => true,
            (Self::V159, Self::V159) => true,
            (Self::V160, Self::V160) => true,
            (Self::V161, Self::V161) => true,
            (Self::V162, Self::V162) => true,
            (Self::V163, Self::V163) => true,
            (Self::V164, Self::V164) => true,
            (Self::V165, Self::V165) => true,
            (Self::V166, Self::V166) => true,
            (Self::V167, Self::V167) => true,
            (Self::V168, Self::V168) => true,
            (Self::V169, Self::V169) => true,
            (Self::V170, Self::V170) => true,
            (Self::V171, Self::V171) => true,
            (Self::V172, Self::V172) => true,
            (Self::V173, Self::V173) => true,
            (Self::V174, Self::V174) => true,
            (Self::V175, Self::V175) => true,
            (Self::V176, Self::V176) => true,
            (Self::V177, Self::V177) => true,
            (Self::V178, Self::V178) => true,
            (Self::V179, Self::V179) => true,
            (Self::V180, Self::V180) => true,
            (Self::V181, Self::V181) => true,
            (Self::V182, Self::V182) => true,
            (Self::V183, Self::V183) => true,
            (Self::V184, Self::V184) => true,
            (Self::V185, Self::V185) => true,
            (Self::V186, Self::V186) => true,
            (Self::V187, Self::V187) => true,
            (Self::V188, Self::V188) => true,
            (Self::V189, Self::V189) => true,
            (Self::V190, Self::V190) => true,
            (Self::V191, Self::V191) => true,
            (Self::V192, Self::V192) => true,
            (Self::V193, Self::V193) => true,
            (Self::V194, Self::V194) => true,
            (Self::V195, Self::V195) => true,
            (Self::V196, Self::V196) => true,
            (Self::V197, Self::V197) => true,
            (Self::V198, Self::V198) => true,
            (Self::V199, Self::V199) => true,
            (Self::V200, Self::V200) => true,
            (Self::V201, Self::V201) => true,
            (Self::V202, Self::V202) => true,
            (Self::V203, Self::V203) => true,
            (Self::V204, Self::V204) => true,
            (Self::V205, Self::V205) => true,
            (Self::V206, Self::V206) => true,
            (Self::V207, Self::V207) => true,
            (Self::V208, Self::V208) => true,
            (Self::V209, Self::V209) => true,
            (Self::V210, Self::V210) => true,
            (Self::V211, Self::V211) => true,
            (Self::V212, Self::V212) => true,
            (Self::V213, Self::V213) => true,
            (Self::V214, Self::V214) => true,
            (Self::V215, Self::V215) => true,
            (Self::V216, Self::V216) => true,
            (Self::V217, Self::V217) => true,
            (Self::V218, Self::V218) => true,
            (Self::V219, Self::V219) => true,
            (Self::V220, Self::V220) => true,
            (Self::V221, Self::V221) => true,
            (Self::V222, Self::V222) => true,
            (Self::V223, Self::V223) => true,
            (Self::V224, Self::V224) => true,
            (Self::V225, Self::V225) => true,
            (Self::V226, Self::V226) => true,
            (Self::V227, Self::V227) => true,
            (Self::V228, Self::V228) => true,
            (Self::V229, Self::V229) => true,
            (Self::V230, Self::V230) => true,
            (Self::V231, Self::V231) => true,
            (Self::V232, Self::V232) => true,
            (Self::V233, Self::V233) => true,
            (Self::V234, Self::V234) => true,
            (Self::V235, Self::V235) => true,
            (Self::V236, Self::V236) => true,
            (Self::V237, Self::V237) => true,
            (Self::V238, Self::V238) => true,
            (Self::V239, Self::V239) => true,
            (Self::V240, Self::V240) => true,
            (Self::V241, Self::V241) => true,
            (Self::V242, Self::V242) => true,
            (Self::V243, Self::V243) => true,
            (Self::V244, Self::V244) => true,
            (Self::V245, Self::V245) => true,
            (Self::V246, Self::V246) => true,
            (Self::V247, Self::V247) => true,
            (Self::V248, Self::V248) => true,
            (Self::V249, Self::V249) => true,
            (Self::V250, Self::V250) => true,
            (Self::V251, Self::V251) => true,
            (Self::V252, Self::V252) => true,
            (Self::V253, Self::V253) => true,
            (Self::V254, Self::V254) => true,
            (Self::V255, Self::V255) => true,
            (Self::V256, Self::V256) => true,
            (Self::V257, Self::V257) => true,
            (Self::V258, Self::V258) => true,
            (Self::V259, Self::V259) => true,
            (Self::V260, Self::V260) => true,
            (Self::V261, Self::V261) => true,
            (Self::V262, Self::V262) => true,
            (Self::V263, Self::V263) => true,
            (Self::V264, Self::V264) => true,
            (Self::V265, Self::V265) => true,
            (Self::V266, Self::V266) => true,
            (Self::V267, Self::V267) => true,
            (Self::V268, Self::V268) => true,
            (Self::V269, Self::V269) => true,
            (Self::V270, Self::V270) => true,
            (Self::V271, Self::V271) => true,
            (Self::V272, Self::V272) => true,
            (Self::V273, Self::V273) => true,
            (Self::V274, Self::V274) => true,
            (Self::V275, Self::V275) => true,
            (Self::V276, Self::V276) => true,
            (Self::V277, Self::V277) => true,
            (Self::V278, Self::V278) => true,
            (Self::V279, Self::V279) => true,
            (Self::V280, Self::V280) => true,
            (Self::V281, Self::V281) => true,
            (Self::V282, Self::V282) => true,
            (Self::V283, Self::V283) => true,
            (Self::V284, Self::V284) => true,
            (Self::V285, Self::V285) => true,
            (Self::V286, Self::V286) => true,
            (Self::V287, Self::V287) => true,
            (Self::V288, Self::V288) => true,
            (Self::V289, Self::V289) => true,
            (Self::V290, Self::V290) => true,
            (Self::V291, Self::V291) => true,
            (Self::V292, Self::V292) => true,
            (Self::V293, Self::V293) => true,
            (Self::V294, Self::V294) => true,
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E476 {
    Ok(u8),
    None,
    String { r#type: String },
    Err(u8),
    Some,
    V0 { serde: String },
    V1(u8),
    V2,
    V3 { a1: String },
    V4(u8),
    V5,
    V6 { s: String },
    V7(u8),
    V8,
    V9 { a0: String },
    V10(u8),
    V11,
    V12 { i: String },
    V13(u8),
    V14,
    V15 { usize: String },
    V16(u8),
    V17,
    V18 { d: String },
    V19(u8),
    V20,
    V21 { self_: String },
    V22(u8),
    V23,
    V24 { value: String },
    V25(u8),
    V26,
    V27 { x: String },
    V28(u8),
    V29,
    V30 { r#type: String },
    V31(u8),
    V32,
    V33 { serde: String },
    V34(u8),
    V35,
    V36 { a1: String },
    V37(u8),
    V38,
    V39 { s: String },
    V40(u8),
    V41,
    V42 { a0: String },
    V43(u8),
    V44,
    V45 { i: String },
    V46(u8),
    V47,
    V48 { usize: String },
    V49(u8),
    V50,
    V51 { d: String },
    V52(u8),
    V53,
    V54 { self_: String },
    V55(u8),
    V56,
    V57 { value: String },
    V58(u8),
    V59,
    V60 { x: String },
    V61(u8),
    V62,
    V63 { r#type: String },
    V64(u8),
    V65,
    V66 { serde: String },
    V67(u8),
    V68,
    V69 { a1: String },
    V70(u8),
    V71,
    V72 { s: String },
    V73(u8),
    V74,
    V75 { a0: String },
    V76(u8),
    V77,
    V78 { i: String },
    V79(u8),
    V80,
    V81 { usize: String },
    V82(u8),
    V83,
    V84 { d: String },
    V85(u8),
    V86,
    V87 { self_: String },
    V88(u8),
    V89,
    V90 { value: String },
    V91(u8),
    V92,
    V93 { x: String },
    V94(u8),
    V95,
    V96 { r#type: String },
    V97(u8),
    V98,
    V99 { serde: String },
    V100(u8),
    V101,
    V102 { a1: String },
    V103(u8),
    V104,
    V105 { s: String },
    V106(u8),
    V107,
    V108 { a0: String },
    V109(u8),
    V110,
    V111 { i: String },
    V112(u8),
    V113,
    V114 { usize: String },
    V115(u8),
    V116,
    V117 { d: String },
    V118(u8),
    V119,
    V120 { self_: String },
    V121(u8),
    V122,
    V123 { value: String },
    V124(u8),
    V125,
    V126 { x: String },
    V127(u8),
    V128,
    V129 { r#type: String },
    V130(u8),
    V131,
    V132 { serde: String },
    V133(u8),
    V134,
    V135 { a1: String },
    V136(u8),
    V137,
    V138 { s: String },
    V139(u8),
    V140,
    V141 { a0: String },
    V142(u8),
    V143,
    V144 { i: String },
    V145(u8),
    V146,
    V147 { usize: String },
    V148(u8),
    V149,
    V150 { d: String },
    V151(u8),
    V152,
    V153 { self_: String },
    V154(u8),
    V155,
    V156 { value: String },
    V157(u8),
    V158,
    V159 { x: String },
    V160(u8),
    V161,
    V162 { r#type: String },
    V163(u8),
    V164,
    V165 { serde: String },
    V166(u8),
    V167,
    V168 { a1: String },
    V169(u8),
    V170,
    V171 { s: String },
    V172(u8),
    V173,
    V174 { a0: String },
    V175(u8),
    V176,
    V177 { i: String },
    V178(u8),
    V179,
    V180 { usize: String },
    V181(u8),
    V182,
    V183 { d: String },
    V184(u8),
    V185,
    V186 { self_: String },
    V187(u8),
    V188,
    V189 { value: String },
    V190(u8),
    V191,
    V192 { x: String },
    V193(u8),
    V194,
    V195 { r#type: String },
    V196(u8),
    V197,
    V198 { serde: String },
    V199(u8),
    V200,
    V201 { a1: String },
    V202(u8),
    V203,
    V204 { s: String },
    V205(u8),
    V206,
    V207 { a0: String },
    V208(u8),
    V209,
    V210 { i: String },
    V211(u8),
    V212,
    V213 { usize: String },
    V214(u8),
    V215,
    V216 { d: String },
    V217(u8),
    V218,
    V219 { self_: String },
    V220(u8),
    V221,
    V222 { value: String },
    V223(u8),
    V224,
    V225 { x: String },
    V226(u8),
    V227,
    V228 { r#type: String },
    V229(u8),
    V230,
    V231 { serde: String },
    V232(u8),
    V233,
    V234 { a1: String },
    V235(u8),
    V236,
    V237 { s: String },
    V238(u8),
    V239,
    V240 { a0: String },
    V241(u8),
    V242,
    V243 { i: String },
    V244(u8),
    V245,
    V246 { usize: String },
    V247(u8),
    V248,
    V249 { d: String },
    V250(u8),
    V251,
    V252 { self_: String },
    V253(u8),
    V254,
    V255 { value: String },
    V256(u8),
    V257,
    V258 { x: String },
    V259(u8),
    V260,
    V261 { r#type: String },
    V262(u8),
    V263,
    V264 { serde: String },
}
impl U for E476 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.push(Self::None);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::String { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Err(pick(c[0]))));
        v.push(Self::Some);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V0 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V1(pick(c[0]))));
        v.push(Self::V2);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V3 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V4(pick(c[0]))));
        v.push(Self::V5);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V6 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V7(pick(c[0]))));
        v.push(Self::V8);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V9 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V10(pick(c[0]))));
        v.push(Self::V11);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V12 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V13(pick(c[0]))));
        v.push(Self::V14);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V15 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V16(pick(c[0]))));
        v.push(Self::V17);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V18 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V19(pick(c[0]))));
        v.push(Self::V20);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V21 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V22(pick(c[0]))));
        v.push(Self::V23);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V24 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V25(pick(c[0]))));
        v.push(Self::V26);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V27 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V28(pick(c[0]))));
        v.push(Self::V29);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V30 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V31(pick(c[0]))));
        v.push(Self::V32);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V33 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V34(pick(c[0]))));
        v.push(Self::V35);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V36 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V37(pick(c[0]))));
        v.push(Self::V38);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V39 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V40(pick(c[0]))));
        v.push(Self::V41);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V42 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V43(pick(c[0]))));
        v.push(Self::V44);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V45 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V46(pick(c[0]))));
        v.push(Self::V47);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V48 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V49(pick(c[0]))));
        v.push(Self::V50);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V51 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V52(pick(c[0]))));
        v.push(Self::V53);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V54 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V55(pick(c[0]))));
        v.push(Self::V56);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V57 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V58(pick(c[0]))));
        v.push(Self::V59);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V60 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V61(pick(c[0]))));
        v.push(Self::V62);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V63 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V64(pick(c[0]))));
        v.push(Self::V65);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V66 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V67(pick(c[0]))));
        v.push(Self::V68);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V69 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V70(pick(c[0]))));
        v.push(Self::V71);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V72 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V73(pick(c[0]))));
        v.push(Self::V74);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V75 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V76(pick(c[0]))));
        v.push(Self::V77);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V78 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V79(pick(c[0]))));
        v.push(Self::V80);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V81 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V82(pick(c[0]))));
        v.push(Self::V83);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V84 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V85(pick(c[0]))));
        v.push(Self::V86);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V87 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V88(pick(c[0]))));
        v.push(Self::V89);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V90 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V91(pick(c[0]))));
        v.push(Self::V92);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V93 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V94(pick(c[0]))));
        v.push(Self::V95);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V96 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V97(pick(c[0]))));
        v.push(Self::V98);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V99 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V100(pick(c[0]))));
        v.push(Self::V101);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V102 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V103(pick(c[0]))));
        v.push(Self::V104);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V105 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V106(pick(c[0]))));
        v.push(Self::V107);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V108 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V109(pick(c[0]))));
        v.push(Self::V110);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V111 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V112(pick(c[0]))));
        v.push(Self::V113);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V114 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V115(pick(c[0]))));
        v.push(Self::V116);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V117 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V118(pick(c[0]))));
        v.push(Self::V119);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V120 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V121(pick(c[0]))));
        v.push(Self::V122);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V123 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V124(pick(c[0]))));
        v.push(Self::V125);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V126 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V127(pick(c[0]))));
        v.push(Self::V128);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V129 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V130(pick(c[0]))));
        v.push(Self::V131);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V132 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V133(pick(c[0]))));
        v.push(Self::V134);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V135 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V136(pick(c[0]))));
        v.push(Self::V137);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V138 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V139(pick(c[0]))));
        v.push(Self::V140);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V141 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V142(pick(c[0]))));
        v.push(Self::V143);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V144 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V145(pick(c[0]))));
        v.push(Self::V146);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V147 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V148(pick(c[0]))));
        v.push(Self::V149);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V150 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V151(pick(c[0]))));
        v.push(Self::V152);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V153 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V154(pick(c[0]))));
        v.push(Self::V155);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V156 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V157(pick(c[0]))));
        v.push(Self::V158);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V159 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V160(pick(c[0]))));
        v.push(Self::V161);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V162 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V163(pick(c[0]))));
        v.push(Self::V164);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V165 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V166(pick(c[0]))));
        v.push(Self::V167);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V168 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V169(pick(c[0]))));
        v.push(Self::V170);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V171 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V172(pick(c[0]))));
        v.push(Self::V173);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V174 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V175(pick(c[0]))));
        v.push(Self::V176);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V177 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V178(pick(c[0]))));
        v.push(Self::V179);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V180 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V181(pick(c[0]))));
        v.push(Self::V182);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V183 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V184(pick(c[0]))));
        v.push(Self::V185);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V186 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V187(pick(c[0]))));
        v.push(Self::V188);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V189 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V190(pick(c[0]))));
        v.push(Self::V191);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V192 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V193(pick(c[0]))));
        v.push(Self::V194);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V195 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V196(pick(c[0]))));
        v.push(Self::V197);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V198 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V199(pick(c[0]))));
        v.push(Self::V200);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V201 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V202(pick(c[0]))));
        v.push(Self::V203);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V204 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V205(pick(c[0]))));
        v.push(Self::V206);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V207 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V208(pick(c[0]))));
        v.push(Self::V209);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V210 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V211(pick(c[0]))));
        v.push(Self::V212);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V213 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V214(pick(c[0]))));
        v.push(Self::V215);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V216 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V217(pick(c[0]))));
        v.push(Self::V218);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V219 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V220(pick(c[0]))));
        v.push(Self::V221);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V222 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V223(pick(c[0]))));
        v.push(Self::V224);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V225 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V226(pick(c[0]))));
        v.push(Self::V227);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V228 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V229(pick(c[0]))));
        v.push(Self::V230);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V231 { serde: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V232(pick(c[0]))));
        v.push(Self::V233);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V234 { a1: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V235(pick(c[0]))));
        v.push(Self::V236);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V237 { s: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V238(pick(c[0]))));
        v.push(Self::V239);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V240 { a0: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V241(pick(c[0]))));
        v.push(Self::V242);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V243 { i: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V244(pick(c[0]))));
        v.push(Self::V245);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V246 { usize: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V247(pick(c[0]))));
        v.push(Self::V248);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V249 { d: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V250(pick(c[0]))));
        v.push(Self::V251);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V252 { self_: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V253(pick(c[0]))));
        v.push(Self::V254);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V255 { value: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V256(pick(c[0]))));
        v.push(Self::V257);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V258 { x: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V259(pick(c[0]))));
        v.push(Self::V260);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V261 { r#type: pick(c[0]) }));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V262(pick(c[0]))));
        v.push(Self::V263);
        v.extend(combos(&[n::<String>()]).into_iter().map(|c| Self::V264 { serde: pick(c[0]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None, Self::None) => true,
            (Self::String { r#type: l0 }, Self::String { r#type: r0 }) => l0.same(r0),
            (Self::Err(l0), Self::Err(r0)) => l0.same(r0),
            (Self::Some, Self::Some) => true,
            (Self::V0 { serde: l0 }, Self::V0 { serde: r0 }) => l0.same(r0),
            (Self::V1(l0), Self::V1(r0)) => l0.same(r0),
            (Self::V2, Self::V2) => true,
            (Self::V3 { a1: l0 }, Self::V3 { a1: r0 }) => l0.same(r0),
            (Self::V4(l0), Self::V4(r0)) => l0.same(r0),
            (Self::V5, Self::V5) => true,
            (Self::V6 { s: l0 }, Self::V6 { s: r0 }) => l0.same(r0),
            (Self::V7(l0), Self::V7(r0)) => l0.same(r0),
            (Self::V8, Self::V8) => true,
            (Self::V9 { a0: l0 }, Self::V9 { a0: r0 }) => l0.same(r0),
            (Self::V10(l0), Self::V10(r0)) => l0.same(r0),
            (Self::V11, Self::V11) => true,
            (Self::V12 { i: l0 }, Self::V12 { i: r0 }) => l0.same(r0),
            (Self::V13(l0), Self::V13(r0)) => l0.same(r0),
            (Self::V14, Self::V14) => true,
            (Self::V15 { usize: l0 }, Self::V15 { usize: r0 }) => l0.same(r0),
            (Self::V16(l0), Self::V16(r0)) => l0.same(r0),
            (Self::V17, Self::V17) => true,
            (Self::V18 { d: l0 }, Self::V18 { d: r0 }) => l0.same(r0),
            (Self::V19(l0), Self::V19(r0)) => l0.same(r0),
            (Self::V20, Self::V20) => true,
            (Self::V21 { self_: l0 }, Self::V21 { self_: r0 }) => l0.same(r0),
            (Self::V22(l0), Self::V22(r0)) => l0.same(r0),
            (Self::V23, Self::V23) => true,
            (Self::V24 { value: l0 }, Self::V24 { value: r0 }) => l0.same(r0),
            (Self::V25(l0), Self::V25(r0)) => l0.same(r0),
            (Self::V26, Self::V26) => true,
            (Self::V27 { x: l0 }, Self::V27 { x: r0 }) => l0.same(r0),
            (Self::V28(l0), Self::V28(r0)) => l0.same(r0),
            (Self::V29, Self::V29) => true,
            (Self::V30 { r#type: l0 }, Self::V30 { r#type: r0 }) => l0.same(r0),
            (Self::V31(l0), Self::V31(r0)) => l0.same(r0),
            (Self::V32, Self::V32) => true,
            (Self::V33 { serde: l0 }, Self::V33 { serde: r0 }) => l0.same(r0),
            (Self::V34(l0), Self::V34(r0)) => l0.same(r0),
            (Self::V35, Self::V35) => true,
            (Self::V36 { a1: l0 }, Self::V36 { a1: r0 }) => l0.same(r0),
            (Self::V37(l0), Self::V37(r0)) => l0.same(r0),
            (Self::V38, Self::V38) => true,
            (Self::V39 { s: l0 }, Self::V39 { s: r0 }) => l0.same(r0),
            (Self::V40(l0), Self::V40(r0)) => l0.same(r0),
            (Self::V41, Self::V41) => true,
            (Self::V42 { a0: l0 }, Self::V42 { a0: r0 }) => l0.same(r0),
            (Self::V43(l0), Self::V43(r0)) => l0.same(r0),
            (Self::V44, Self::V44) => true,
            (Self::V45 { i: l0 }, Self::V45 { i: r0 }) => l0.same(r0),
            (Self::V46(l0), Self::V46(r0)) => l0.same(r0),
            (Self::V47, Self::V47) => true,
            (Self::V48 { usize: l0 }, Self::V48 { usize: r0 }) => l0.same(r0),
            (Self::V49(l0), Self::V49(r0)) => l0.same(r0),
            (Self::V50, Self::V50) => true,
            (Self::V51 { d: l0 }, Self::V51 { d: r0 }) => l0.same(r0),
            (Self::V52(l0), Self::V52(r0)) => l0.same(r0),
            (Self::V53, Self::V53) => true,
            (Self::V54 { self_: l0 }, Self::V54 { self_: r0 }) => l0.same(r0),
            (Self::V55(l0), Self::V55(r0)) => l0.same(r0),
            (Self::V56, Self::V56) => true,
            (Self::V57 { value: l0 }, Self::V57 { value: r0 }) => l0.same(r0),
            (Self::V58(l0), Self::V58(r0)) => l0.same(r0),
            (Self::V59, Self::V59) => true,
            (Self::V60 { x: l0 }, Self::V60 { x: r0 }) => l0.same(r0),
            (Self::V61(l0), Self::V61(r0)) => l0.same(r0),
            (Self::V62, Self::V62) => true,
            (Self::V63 { r#type: l0 }, Self::V63 { r#type: r0 }) => l0.same(r0),
            (Self::V64(l0), Self::V64(r0)) => l0.same(r0),
            (Self::V65, Self::V65) => true,
            (Self::V66 { serde: l0 }, Self::V66 { serde: r0 }) => l0.same(r0),
            (Self::V67(l0), Self::V67(r0)) => l0.same(r0),
            (Self::V68, Self::V68) => true,
            (Self::V69 { a1: l0 }, Self::V69 { a1: r0 }) => l0.same(r0),
            (Self::V70(l0), Self::V70(r0)) => l0.same(r0),
            (Self::V71, Self::V71) => true,
            (Self::V72 { s: l0 }, Self::V72 { s: r0 }) => l0.same(r0),
            (Self::V73(l0), Self::V73(r0)) => l0.same(r0),
            (Self::V74, Self::V74) => true,
            (Self::V75 { a0: l0 }, Self::V75 { a0: r0 }) => l0.same(r0),
            (Self::V76(l0), Self::V76(r0)) => l0.same(r0),
            (Self::V77, Self::V77) => true,
            (Self::V78 { i: l0 }, Self::V78 { i: r0 }) => l0.same(r0),
            (Self::V79(l0), Self::V79(r0)) => l0.same(r0),
            (Self::V80, Self::V80) => true,
            (Self::V81 { usize: l0 }, Self::V81 { usize: r0 }) => l0.same(r0),
            (Self::V82(l0), Self::V82(r0)) => l0.same(r0),
            (Self::V83, Self::V83) => true,
            (Self::V84 { d: l0 }, Self::V84 { d: r0 }) => l0.same(r0),
            (Self::V85(l0), Self::V85(r0)) => l0.same(r0),
            (Self::V86, Self::V86) => true,
            (Self::V87 { self_: l0 }, Self::V87 { self_: r0 }) => l0.same(r0),
            (Self::V88(l0), Self::V88(r0)) => l0.same(r0),
            (Self::V89, Self::V89) => true,
            (Self::V90 { value: l0 }, Self::V90 { value: r0 }) => l0.same(r0),
            (Self::V91(l0), Self::V91(r0)) => l0.same(r0),
            (Self::V92, Self::V92) => true,
            (Self::V93 { x: l0 }, Self::V93 { x: r0 }) => l0.same(r0),
            (Self::V94(l0), Self::V94(r0)) => l0.same(r0),
            (Self::V95, Self::V95) => true,
            (Self::V96 { r#type: l0 }, Self::V96 { r#type: r0 }) => l0.same(r0),
            (Self::V97(l0), Self::V97(r0)) => l0.same(r0),
            (Self::V98, Self::V98) => true,
            (Self::V99 { serde: l0 }, Self::V99 { serde: r0 }) => l0.same(r0),
            (Self::V100(l0), Self::V100(r0)) => l0.same(r0),
            (Self::V101, Self::V101) => true,
            (Self::V102 { a1: l0 }, Self::V102 { a1: r0 }) => l0.same(r0),
            (Self::V103(l0), Self::V103(r0)) => l0.same(r0),
            (Self::V104, Self::V104) => true,
            (Self::V105 { s: l0 }, Self::V105 { s: r0 }) => l0.same(r0),
            (Self::V106(l0), Self::V106(r0)) => l0.same(r0),
            (Self::V107, Self::V107) => true,
            (Self::V108 { a0: l0 }, Self::V108 { a0: r0 }) => l0.same(r0),
            (Self::V109(l0), Self::V109(r0)) => l0.same(r0),
            (Self::V110, Self::V110) => true,
            (Self::V111 { i: l0 }, Self::V111 { i: r0 }) => l0.same(r0),
            (Self::V112(l0), Self::V112(r0)) => l0.same(r0),
            (Self::V113, Self::V113) => true,
            (Self::V114 { usize: l0 }, Self::V114 { usize: r0 }) => l0.same(r0),
            (Self::V115(l0), Self::V115(r0)) => l0.same(r0),
            (Self::V116, Self::V116) => true,
            (Self::V117 { d: l0 }, Self::V117 { d: r0 }) => l0.same(r0),
            (Self::V118(l0), Self::V118(r0)) => l0.same(r0),
            (Self::V119, Self::V119) => true,
            (Self::V120 { self_: l0 }, Self::V120 { self_: r0 }) => l0.same(r0),
            (Self::V121(l0), Self::V121(r0)) => l0.same(r0),
            (Self::V122, Self::V122) => true,
            (Self::V123 { value: l0 }, Self::V123 { value: r0 }) => l0.same(r0),
            (Self::V124(l0), Self::V124(r0)) => l0.same(r0),
            (Self::V125, Self::V125) => true,
            (Self::V126 { x: l0 }, Self::V126 { x: r0 }) => l0.same(r0),
            (Self::V127(l0), Self::V127(r0)) => l0.same(r0),
            (Self::V128, Self::V128) => true,
            (Self::V129 { r#type: l0 }, Self::V129 { r#type: r0 }) => l0.same(r0),
            (Self::V130(l0), Self::V130(r0)) => l0.same(r0),
            (Self::V131, Self::V131) => true,
            (Self::V132 { serde: l0 }, Self::V132 { serde: r0 }) => l0.same(r0),
            (Self::V133(l0), Self::V133(r0)) => l0.same(r0),
            (Self::V134, Self::V134) => true,
            (Self::V135 { a1: l0 }, Self::V135 { a1: r0 }) => l0.same(r0),
            (Self::V136(l0), Self::V136(r0)) => l0.same(r0),
            (Self::V137, Self::V137) => true,
            (Self::V138 { s: l0 }, Self::V138 { s: r0 }) => l0.same(r0),
            (Self::V139(l0), Self::V139(r0)) => l0.same(r0),
            (Self::V140, Self::V140) => true,
            (Self::V141 { a0: l0 }, Self::V141 { a0: r0 }) => l0.same(r0),
            (Self::V142(l0), Self::V142(r0)) => l0.same(r0),
            (Self::V143, Self::V143) => true,
            (Self::V144 { i: l0 }, Self::V144 { i: r0 }) => l0.same(r0),
            (Self::V145(l0), Self::V145(r0)) => l0.same(r0),
            (Self::V146, Self::V146) => true,
            (Self::V147 { usize: l0 }, Self::V147 { usize: r0 }) => l0.same(r0),
            (Self::V148(l0), Self::V148(r0)) => l0.same(r0),
            (Self::V149, Self::V149) => true,
            (Self::V150 { d: l0 }, Self::V150 { d: r0 }) => l0.same(r0),
            (Self::V151(l0), Self::V151(r0)) => l0.same(r0),
            (Self::V152, Self::V152) => true,
            (Self::V153 { self_: l0 }, Self::V153 { self_: r0 }) => l0.same(r0),
            (Self::V154(l0), Self::V154(r0)) => l0.same(r0),
            (Self::V155, Self::V155) => true,
            (Self::V156 { value: l0 }, Self::V156 { value: r0 }) => l0.same(r0),
            (Self::V157(l0), Self::V157(r0)) => l0.same(r0),
            (Self::V158, Self::V158) => true,
            (Self::V159 { x: l0 }, Self::V159 { x: r0 }) => l0.same(r0),
            (Self::V160(l0), Self::V160(r0)) => l0.same(r0),
            (Self::V161, Self::V161) => true,
            (Self::V162 { r#type: l0 }, Self::V162 { r#type: r0 }) => l0.same(r0),
            (Self::V163(l0), Self::V163(r0)) => l0.same(r0),
            (Self::V164, Self::V164) => true,
            (Self::V165 { serde: l0 }, Self::V165 { serde: r0 }) => l0.same(r0),
            (Self::V166(l0), Self::V166(r0)) => l0.same(r0),
            (Self::V167, Self::V167) => true,
            (Self::V168 { a1: l0 }, Self::V168 { a1: r0 }) => l0.same(r0),
            (Self::V169(l0), Self::V169(r0)) => l0.same(r0),
            (Self::V170, Self::V170) => true,
            (Self::V171 { s: l0 }, Self::V171 { s: r0 }) => l0.same(r0),
            (Self::V172(l0), Self::V172(r0)) => l0.same(r0),
            (Self::V173, Self::V173) => true,
            (Self::V174 { a0: l0 }, Self::V174 { a0: r0 }) => l0.same(r0),
            (Self::V175(l0), Self::V175(r0)) => l0.same(r0),
            (Self::V176, Self::V176) => true,
            (Self::V177 { i: l0 }, Self::V177 { i: r0 }) => l0.same(r0),
            (Self::V178(l0), Self::V178(r0)) => l0.same(r0),
            (Self::V179, Self::V179) => true,
            (Self::V180 { usize: l0 }, Self::V180 { usize: r0 }) => l0.same(r0),
            (Self::V181(l0), Self::V181(r0)) => l0.same(r0),
            (Self::V182, Self::V182) => true,
            (Self::V183 { d: l0 }, Self::V183 { d: r0 }) => l0.same(r0),
            (Self::V184(l0), Self::V184(r0)) => l0.same(r0),
            (Self::V185, Self::V185) => true,
            (Self::V186 { self_: l0 }, Self::V186 { self_: r0 }) => l0.same(r0),
            (Self::V187(l0), Self::V187(r0)) => l0.same(r0),
            (Self::V188, Self::V188) => true,
            (Self::V189 { value: l0 }, Self::V189 { value: r0 }) => l0.same(r0),
            (Self::V190(l0), Self::V190(r0)) => l0.same(r0),
            (Self::V191, Self::V191) => true,
            (Self::V192 { x: l0 }, Self::V192 { x: r0 }) => l0.same(r0),
            (Self::V193(l0), Self::V193(r0)) => l0.same(r0),
            (Self::V194, Self::V194) => true,
            (Self::V195 { r#type: l0 }, Self::V195 { r#type: r0 }) => l0.same(r0),
            (Self::V196(l0), Self::V196(r0)) => l0.same(r0),
            (Self::V197, Self::V197) => true,
            (Self::V198 { serde: l0 }, Self::V198 { serde: r0 }) => l0.same(r0),
            (Self::V199(l0), Self::V199(r0)) => l0.same(r0),
            (Self::V200, Self::V200) => true,
            (Self::V201 { a1: l0 }, Self::V201 { a1: r0 }) => l0.same(r0),
            (Self::V202(l0), Self::V202(r0)) => l0.same(r0),
            (Self::V203, Self::V203) => true,
            (Self::V204 { s: l0 }, Self::V204 { s: r0 }) => l0.same(r0),
            (Self::V205(l0), Self::V205(r0)) => l0.same(r0),
            (Self::V206, Self::V206) => true,
            (Self::V207 { a0: l0 }, Self::V207 { a0: r0 }) => l0.same(r0),
            (Self::V208(l0), Self::V208(r0)) => l0.same(r0),
            (Self::V209, Self::V209) => true,
            (Self::V210 { i: l0 }, Self::V210 { i: r0 }) => l0.same(r0),
            (Self::V211(l0), Self::V211(r0)) => l0.same(r0),
            (Self::V212, Self::V212) => true,
            (Self::V213 { usize: l0 }, Self::V213 { usize: r0 }) => l0.same(r0),
            (Self::V214(l0), Self::V214(r0)) => l0.same(r0),
            (Self::V215, Self::V215) => true,
            (Self::V216 { d: l0 }, Self::V216 { d: r0 }) => l0.same(r0),
            (Self::V217(l0), Self::V217(r0)) => l0.same(r0),
            (Self::V218, Self::V218) => true,
            (Self::V219 { self_: l0 }, Self::V219 { self_: r0 }) => l0.same(r0),
            (Self::V220(l0), Self::V220(r0)) => l0.same(r0),
            (Self::V221, Self::V221) => true,
            (Self::V222 { value: l0 }, Self::V222 { value: r0 }) => l0.same(r0),
            (Self::V223(l0), Self::V223(r0)) => l0.same(r0),
            (Self::V224, Self::V224) => true,
            (Self::V225 { x: l0 }, Self::V225 { x: r0 }) => l0.same(r0),
            (Self::V226(l0), Self::V226(r0)) => l0.same(r0),
            (Self::V227, Self::V227) => true,
            (Self::V228 { r#type: l0 }, Self::V228 { r#type: r0 }) => l0.same(r0),
            (Self::V229(l0), Self::V229(r0)) => l0.same(r0),
            (Self::V230, Self::V230) => true,
            (Self::V231 { serde: l0 }, Self::V231 { serde: r0 }) => l0.same(r0),
            (Self::V232(l0), Self::V232(r0)) => l0.same(r0),
            (Self::V233, Self::V233) => true,
            (Self::V234 { a1: l0 }, Self::V234 { a1: r0 }) => l0.same(r0),
            (Self::V235(l0), Self::V235(r0)) => l0.same(r0),
            (Self::V236, Self::V236) => true,
            (Self::V237 { s: l0 }, Self::V237 { s: r0 }) => l0.same(r0),
            (Self::V238(l0), Self::V238(r0)) => l0.same(r0),
            (Self::V239, Self::V239) => true,
            (Self::V240 { a0: l0 }, Self::V240 { a0: r0 }) => l0.same(r0),
            (Self::V241(l0), Self::V241(r0)) => l0.same(r0),
            (Self::V242, Self::V242) => true,
            (Self::V243 { i: l0 }, Self::V243 { i: r0 }) => l0.same(r0),
            (Self::V244(l0), Self::V244(r0)) => l0.same(r0),
            (Self::V245, Self::V245) => true,
            (Self::V246 { usize: l0 }, Self::V246 { usize: r0 }) => l0.same(r0),
            (Self::V247(l0), Self::V247(r0)) => l0.same(r0),
            (Self::V248, Self::V248) => true,
            (Self::V249 { d: l0 }, Self::V249 { d: r0 }) => l0.same(r0),
            (Self::V250(l0), Self::V250(r0)) => l0.same(r0),
            (Self::V251, Self::V251) => true,
            (Self::V252 { self_: l0 }, Self::V252 { self_: r0 }) => l0.same(r0),
            (Self::V253(l0), Self::V253(r0)) => l0.same(r0),
            (Self::V254, Self::V254) => true,
            (Self::V255 { value: l0 }, Self::V255 { value: r0 }) => l0.same(r0),
            (Self::V256(l0), Self::V256(r0)) => l0.same(r0),
            (Self::V257, Self::V257) => true,
            (Self::V258 { x: l0 }, Self::V258 { x: r0 }) => l0.same(r0),
            (Self::V259(l0), Self::V259(r0)) => l0.same(r0),
            (Self::V260, Self::V260) => true,
            (Self::V261 { r#type: l0 }, Self::V261 { r#type: r0 }) => l0.same(r0),
            (Self::V262(l0), Self::V262(r0)) => l0.same(r0),
            (Self::V263, Self::V263) => true,
            (Self::V264 { serde: l0 }, Self::V264 { serde: r0 }) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E477 {
    Ok(u8),
    None(u8),
    String(u8),
    Err(u8),
    Some(u8),
    V0(u8),
    V1(u8),
    V2(u8),
    V3(u8),
    V4(u8),
    V5(u8),
    V6(u8),
    V7(u8),
    V8(u8),
    V9(u8),
    V10(u8),
    V11(u8),
}
impl U for E477 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Ok(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::None(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::String(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Err(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::Some(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V0(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V1(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V2(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V3(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V4(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V5(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V6(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V7(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V8(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V9(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V10(pick(c[0]))));
        v.extend(combos(&[n::<u8>()]).into_iter().map(|c| Self::V11(pick(c[0]))));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0), Self::Ok(r0)) => l0.same(r0),
            (Self::None(l0), Self::None(r0)) => l0.same(r0),
            (Self::String(l0), Self::String(r0)) => l0.same(r0),
            (Self::Err(l0), Self::Err(r0)) => l0.same(r0),
            (Self::Some(l0), Self::Some(r0)) => l0.same(r0),
            (Self::V0(l0), Self::V0(r0)) => l0.same(r0),
            (Self::V1(l0), Self::V1(r0)) => l0.same(r0),
            (Self::V2(l0), Self::V2(r0)) => l0.same(r0),
            (Self::V3(l0), Self::V3(r0)) => l0.same(r0),
            (Self::V4(l0), Self::V4(r0)) => l0.same(r0),
            (Self::V5(l0), Self::V5(r0)) => l0.same(r0),
            (Self::V6(l0), Self::V6(r0)) => l0.same(r0),
            (Self::V7(l0), Self::V7(r0)) => l0.same(r0),
            (Self::V8(l0), Self::V8(r0)) => l0.same(r0),
            (Self::V9(l0), Self::V9(r0)) => l0.same(r0),
            (Self::V10(l0), Self::V10(r0)) => l0.same(r0),
            (Self::V11(l0), Self::V11(r0)) => l0.same(r0),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}
#[derive(Object)]
pub enum E478 {
    Ok(String, u8, u64, File, u8, bool, u16, u8, String, u8, ()),
    None { d: String, r#type: u8, a0: u64, self_: File, serde: u8, i: bool, value: u16, a1: u8, usize: String, x: u8, s: () },
}
impl U for E478 {
    fn values() -> Vec<Self> {
        #[allow(unused_mut)]
        let mut v = vec![];
        v.extend(combos(&[n::<String>(), n::<u8>(), n::<u64>(), n::<File>(), n::<u8>(), n::<bool>(), n::<u16>(), n::<u8>(), n::<String>(), n::<u8>(), n::<()>()]).into_iter().map(|c| Self::Ok(pick(c[0]), pick(c[1]), pick(c[2]), pick(c[3]), pick(c[4]), pick(c[5]), pick(c[6]), pick(c[7]), pick(c[8]), pick(c[9]), pick(c[10]))));
        v.extend(combos(&[n::<String>(), n::<u8>(), n::<u64>(), n::<File>(), n::<u8>(), n::<bool>(), n::<u16>(), n::<u8>(), n::<String>(), n::<u8>(), n::<()>()]).into_iter().map(|c| Self::None { d: pick(c[0]), r#type: pick(c[1]), a0: pick(c[2]), self_: pick(c[3]), serde: pick(c[4]), i: pick(c[5]), value: pick(c[6]), a1: pick(c[7]), usize: pick(c[8]), x: pick(c[9]), s: pick(c[10]) }));
        v
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Ok(l0, l1, l2, l3, l4, l5, l6, l7, l8, l9, l10), Self::Ok(r0, r1, r2, r3, r4, r5, r6, r7, r8, r9, r10)) => l0.same(r0) && l1.same(r1) && l2.same(r2) && l3.same(r3) && l4.same(r4) && l5.same(r5) && l6.same(r6) && l7.same(r7) && l8.same(r8) && l9.same(r9) && l10.same(r10),
            (Self::None { d: l0, r#type: l1, a0: l2, self_: l3, serde: l4, i: l5, value: l6, a1: l7, usize: l8, x: l9, s: l10 }, Self::None { d: r0, r#type: r1, a0: r2, self_: r3, serde: r4, i: r5, value: r6, a1: r7, usize: r8, x: r9, s: r10 }) => l0.same(r0) && l1.same(r1) && l2.same(r2) && l3.same(r3) && l4.same(r4) && l5.same(r5) && l6.same(r6) && l7.same(r7) && l8.same(r8) && l9.same(r9) && l10.same(r10),
            #[allow(unreachable_patterns)]
            _ => false,
        }
    }
}

pub fn shapes(v: &mut Vec<mc::Scenario>) {
    check::<S0>(v);
    check::<S1>(v);
    check::<S2>(v);
    check::<S3>(v);
    check::<S4>(v);
    check::<S5>(v);
    check::<S6>(v);
    check::<S7>(v);
    check::<S8>(v);
    check::<S9>(v);
    check::<S10>(v);
    check::<S11>(v);
    check::<S12>(v);
    check::<S13>(v);
    check::<S14>(v);
    check::<S15>(v);
    check::<S16>(v);
    check::<S17>(v);
    check::<S18>(v);
    check::<S19>(v);
    check::<S20>(v);
    check::<S21>(v);
    check::<S22>(v);
    check::<S23>(v);
    check::<S24>(v);
    check::<S25>(v);
    check::<S26>(v);
    check::<S27>(v);
    check::<S28>(v);
    check::<S29>(v);
    check::<S30>(v);
    check::<S31>(v);
    check::<S32>(v);
    check::<S33>(v);
    check::<S34>(v);
    check::<S35>(v);
    check::<S36>(v);
    check::<S37>(v);
    check::<S38>(v);
    check::<S39>(v);
    check::<S40>(v);
    check::<S41>(v);
    check::<S42>(v);
    check::<S43>(v);
    check::<S44>(v);
    check::<S45>(v);
    check::<S46>(v);
    check::<S47>(v);
    check::<S48>(v);
    check::<S49>(v);
    check::<S50>(v);
    check::<S51>(v);
    check::<S52>(v);
    check::<S53>(v);
    check::<S54>(v);
    check::<S55>(v);
    check::<S56>(v);
    check::<S57>(v);
    check::<S58>(v);
    check::<S59>(v);
    check::<S60>(v);
    check::<S61>(v);
    check::<S62>(v);
    check::<S63>(v);
    check::<S64>(v);
    check::<S65>(v);
    check::<S66>(v);
    check::<S67>(v);
    check::<S68>(v);
    check::<S69>(v);
    check::<S70>(v);
    check::<S71>(v);
    check::<S72>(v);
    check::<S73>(v);
    check::<S74>(v);
    check::<S75>(v);
    check::<S76>(v);
    check::<S77>(v);
    check::<S78>(v);
    check::<S79>(v);
    check::<S80>(v);
    check::<S81>(v);
    check::<S82>(v);
    check::<S83>(v);
    check::<S84>(v);
    check::<S85>(v);
    check::<S86>(v);
    check::<S87>(v);
    check::<S88>(v);
    check::<S89>(v);
    check::<S90>(v);
    check::<S91>(v);
    check::<S92>(v);
    check::<S93>(v);
    check::<S94>(v);
    check::<S95>(v);
    check::<S96>(v);
    check::<S97>(v);
    check::<S98>(v);
    check::<S99>(v);
    check::<S100>(v);
    check::<S101>(v);
    check::<S102>(v);
    check::<S103>(v);
    check::<S104>(v);
    check::<S105>(v);
    check::<S106>(v);
    check::<S107>(v);
    check::<S108>(v);
    check::<S109>(v);
    check::<S110>(v);
    check::<S111>(v);
    check::<S112>(v);
    check::<S113>(v);
    check::<S114>(v);
    check::<S115>(v);
    check::<S116>(v);
    check::<S117>(v);
    check::<S118>(v);
    check::<S119>(v);
    check::<S120>(v);
    check::<S121>(v);
    check::<S122>(v);
    check::<S123>(v);
    check::<S124>(v);
    check::<S125>(v);
    check::<S126>(v);
    check::<S127>(v);
    check::<S128>(v);
    check::<S129>(v);
    check::<S130>(v);
    check::<S131>(v);
    check::<S132>(v);
    check::<S133>(v);
    check::<S134>(v);
    check::<S135>(v);
    check::<S136>(v);
    check::<S137>(v);
    check::<S138>(v);
    check::<S139>(v);
    check::<S140>(v);
    check::<S141>(v);
    check::<S142>(v);
    check::<S143>(v);
    check::<S144>(v);
    check::<S145>(v);
    check::<S146>(v);
    check::<S147>(v);
    check::<S148>(v);
    check::<S149>(v);
    check::<S150>(v);
    check::<S151>(v);
    check::<S152>(v);
    check::<S153>(v);
    check::<S154>(v);
    check::<S155>(v);
    check::<S156>(v);
    check::<S157>(v);
    check::<S158>(v);
    check::<S159>(v);
    check::<S160>(v);
    check::<S161>(v);
    check::<S162>(v);
    check::<S163>(v);
    check::<S164>(v);
    check::<S165>(v);
    check::<S166>(v);
    check::<S167>(v);
    check::<S168>(v);
    check::<S169>(v);
    check::<S170>(v);
    check::<S171>(v);
    check::<S172>(v);
    check::<S173>(v);
    check::<S174>(v);
    check::<S175>(v);
    check::<S176>(v);
    check::<S177>(v);
    check::<S178>(v);
    check::<S179>(v);
    check::<S180>(v);
    check::<S181>(v);
    check::<S182>(v);
    check::<S183>(v);
    check::<S184>(v);
    check::<S185>(v);
    check::<S186>(v);
    check::<S187>(v);
    check::<S188>(v);
    check::<S189>(v);
    check::<S190>(v);
    check::<S191>(v);
    check::<S192>(v);
    check::<S193>(v);
    check::<S194>(v);
    check::<S195>(v);
    check::<S196>(v);
    check::<S197>(v);
    check::<S198>(v);
    check::<S199>(v);
    check::<S200>(v);
    check::<S201>(v);
    check::<S202>(v);
    check::<S203>(v);
    check::<S204>(v);
    check::<S205>(v);
    check::<S206>(v);
    check::<S207>(v);
    check::<S208>(v);
    check::<S209>(v);
    check::<S210>(v);
    check::<S211>(v);
    check::<S212>(v);
    check::<S213>(v);
    check::<S214>(v);
    check::<S215>(v);
    check::<S216>(v);
    check::<S217>(v);
    check::<S218>(v);
    check::<S219>(v);
    check::<S220>(v);
    check::<S221>(v);
    check::<S222>(v);
    check::<S223>(v);
    check::<S224>(v);
    check::<S225>(v);
    check::<S226>(v);
    check::<S227>(v);
    check::<S228>(v);
    check::<S229>(v);
    check::<S230>(v);
    check::<S231>(v);
    check::<S232>(v);
    check::<S233>(v);
    check::<S234>(v);
    check::<S235>(v);
    check::<S236>(v);
    check::<S237>(v);
    check::<S238>(v);
    check::<S239>(v);
    check::<S240>(v);
    check::<S241>(v);
    check::<S242>(v);
    check::<S243>(v);
    check::<S244>(v);
    check::<S245>(v);
    check::<S246>(v);
    check::<S247>(v);
    check::<S248>(v);
    check::<S249>(v);
    check::<S250>(v);
    check::<S251>(v);
    check::<S252>(v);
    check::<S253>(v);
    check::<S254>(v);
    check::<S255>(v);
    check::<S256>(v);
    check::<S257>(v);
    check::<S258>(v);
    check::<S259>(v);
    check::<S260>(v);
    check::<S261>(v);
    check::<S262>(v);
    check::<S263>(v);
    check::<S264>(v);
    check::<S265>(v);
    check::<S266>(v);
    check::<S267>(v);
    check::<S268>(v);
    check::<S269>(v);
    check::<S270>(v);
    check::<S271>(v);
    check::<S272>(v);
    check::<S273>(v);
    check::<S274>(v);
    check::<S275>(v);
    check::<S276>(v);
    check::<S277>(v);
    check::<S278>(v);
    check::<S279>(v);
    check::<S280>(v);
    check::<S281>(v);
    check::<S282>(v);
    check::<S283>(v);
    check::<S284>(v);
    check::<E285>(v);
    check::<E286>(v);
    check::<E287>(v);
    check::<E288>(v);
    check::<E289>(v);
    check::<E290>(v);
    check::<E291>(v);
    check::<E292>(v);
    check::<E293>(v);
    check::<E294>(v);
    check::<E295>(v);
    check::<E296>(v);
    check::<E297>(v);
    check::<E298>(v);
    check::<E299>(v);
    check::<E300>(v);
    check::<E301>(v);
    check::<E302>(v);
    check::<E303>(v);
    check::<E304>(v);
    check::<E305>(v);
    check::<E306>(v);
    check::<E307>(v);
    check::<E308>(v);
    check::<E309>(v);
    check::<E310>(v);
    check::<E311>(v);
    check::<E312>(v);
    check::<E313>(v);
    check::<E314>(v);
    check::<E315>(v);
    check::<E316>(v);
    check::<E317>(v);
    check::<E318>(v);
    check::<E319>(v);
    check::<E320>(v);
    check::<E321>(v);
    check::<E322>(v);
    check::<E323>(v);
    check::<E324>(v);
    check::<E325>(v);
    check::<E326>(v);
    check::<E327>(v);
    check::<E328>(v);
    check::<E329>(v);
    check::<E330>(v);
    check::<E331>(v);
    check::<E332>(v);
    check::<E333>(v);
    check::<E334>(v);
    check::<E335>(v);
    check::<E336>(v);
    check::<E337>(v);
    check::<E338>(v);
    check::<E339>(v);
    check::<E340>(v);
    check::<E341>(v);
    check::<E342>(v);
    check::<E343>(v);
    check::<E344>(v);
    check::<E345>(v);
    check::<E346>(v);
    check::<E347>(v);
    check::<E348>(v);
    check::<E349>(v);
    check::<E350>(v);
    check::<E351>(v);
    check::<E352>(v);
    check::<E353>(v);
    check::<E354>(v);
    check::<E355>(v);
    check::<E356>(v);
    check::<E357>(v);
    check::<E358>(v);
    check::<E359>(v);
    check::<E360>(v);
    check::<E361>(v);
    check::<E362>(v);
    check::<E363>(v);
    check::<E364>(v);
    check::<E365>(v);
    check::<E366>(v);
    check::<E367>(v);
    check::<E368>(v);
    check::<E369>(v);
    check::<E370>(v);
    check::<E371>(v);
    check::<E372>(v);
    check::<E373>(v);
    check::<E374>(v);
    check::<E375>(v);
    check::<E376>(v);
    check::<E377>(v);
    check::<E378>(v);
    check::<E379>(v);
    check::<E380>(v);
    check::<E381>(v);
    check::<E382>(v);
    check::<E383>(v);
    check::<E384>(v);
    check::<E385>(v);
    check::<E386>(v);
    check::<E387>(v);
    check::<E388>(v);
    check::<E389>(v);
    check::<E390>(v);
    check::<E391>(v);
    check::<E392>(v);
    check::<E393>(v);
    check::<E394>(v);
    check::<E395>(v);
    check::<E396>(v);
    check::<E397>(v);
    check::<E398>(v);
    check::<E399>(v);
    check::<E400>(v);
    check::<E401>(v);
    check::<E402>(v);
    check::<E403>(v);
    check::<E404>(v);
    check::<E405>(v);
    check::<E406>(v);
    check::<E407>(v);
    check::<E408>(v);
    check::<E409>(v);
    check::<E410>(v);
    check::<E411>(v);
    check::<E412>(v);
    check::<E413>(v);
    check::<E414>(v);
    check::<E415>(v);
    check::<E416>(v);
    check::<E417>(v);
    check::<E418>(v);
    check::<E419>(v);
    check::<E420>(v);
    check::<E421>(v);
    check::<E422>(v);
    check::<E423>(v);
    check::<E424>(v);
    check::<E425>(v);
    check::<E426>(v);
    check::<E427>(v);
    check::<E428>(v);
    check::<E429>(v);
    check::<E430>(v);
    check::<E431>(v);
    check::<E432>(v);
    check::<E433>(v);
    check::<E434>(v);
    check::<E435>(v);
    check::<E436>(v);
    check::<E437>(v);
    check::<E438>(v);
    check::<E439>(v);
    check::<E440>(v);
    check::<E441>(v);
    check::<E442>(v);
    check::<E443>(v);
    check::<E444>(v);
    check::<E445>(v);
    check::<E446>(v);
    check::<E447>(v);
    check::<E448>(v);
    check::<E449>(v);
    check::<E450>(v);
    check::<E451>(v);
    check::<E452>(v);
    check::<E453>(v);
    check::<E454>(v);
    check::<E455>(v);
    check::<E456>(v);
    check::<E457>(v);
    check::<E458>(v);
    check::<E459>(v);
    check::<E460>(v);
    check::<E461>(v);
    check::<E462>(v);
    check::<E463>(v);
    check::<E464>(v);
    check::<E465>(v);
    check::<E466>(v);
    check::<E467>(v);
    check::<E468>(v);
    check::<E469>(v);
    check::<E470>(v);
    check::<E471>(v);
    check::<E472>(v);
    check::<E473>(v);
    check::<E474>(v);
    check::<E475>(v);
    check::<E476>(v);
    check::<E477>(v);
    check::<E478>(v);
}
