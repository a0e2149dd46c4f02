// one block per target type
use crate::ffi::{Obj, Pod, Txt};
use crate::w_ptr::*;
use cxx::{CxxString, SharedPtr, WeakPtr};
#[cxx::bridge(namespace = "rt")]
pub mod pb {
    unsafe extern "C++" {
        include!("rtsim/cxx/ptr.h");
        type Obj = crate::ffi::Obj;
        type Txt = crate::ffi::Txt;
        type Pod = crate::ffi::Pod;
        fn p_copy_obj(p: &SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn p_move_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn p_drop_obj(p: SharedPtr<Obj>);
        fn p_weak_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj>;
        fn p_lock_obj(p: &WeakPtr<Obj>) -> SharedPtr<Obj>;
        fn p_wcopy_obj(p: &WeakPtr<Obj>) -> WeakPtr<Obj>;
        fn p_wmove_obj(p: WeakPtr<Obj>) -> WeakPtr<Obj>;
        fn p_wdrop_obj(p: WeakPtr<Obj>);
        fn p_new_obj(id: u64) -> SharedPtr<Obj>;
        fn p_assign_obj(p: &mut SharedPtr<Obj>, q: &SharedPtr<Obj>);
        fn p_swap_obj(p: &mut SharedPtr<Obj>, q: &mut SharedPtr<Obj>);
        fn p_reset_obj(p: &mut SharedPtr<Obj>);
        fn p_wassign_obj(p: &mut WeakPtr<Obj>, q: &SharedPtr<Obj>);
        fn p_count_obj(p: &SharedPtr<Obj>) -> usize;
        fn p_wcount_obj(p: &WeakPtr<Obj>) -> usize;
        fn p_addr_obj(p: &SharedPtr<Obj>) -> usize;
        fn p_rclone_obj(p: &SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn p_rmove_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn p_rdrop_obj(p: SharedPtr<Obj>);
        fn p_rlock_obj(p: &WeakPtr<Obj>) -> SharedPtr<Obj>;
        fn p_rweak_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj>;
        fn p_rwdrop_obj(p: WeakPtr<Obj>);
        fn p_copy_txt(p: &SharedPtr<Txt>) -> SharedPtr<Txt>;
        fn p_move_txt(p: SharedPtr<Txt>) -> SharedPtr<Txt>;
        fn p_drop_txt(p: SharedPtr<Txt>);
        fn p_weak_txt(p: &SharedPtr<Txt>) -> WeakPtr<Txt>;
        fn p_lock_txt(p: &WeakPtr<Txt>) -> SharedPtr<Txt>;
        fn p_wcopy_txt(p: &WeakPtr<Txt>) -> WeakPtr<Txt>;
        fn p_wmove_txt(p: WeakPtr<Txt>) -> WeakPtr<Txt>;
        fn p_wdrop_txt(p: WeakPtr<Txt>);
        fn p_new_txt(id: u64) -> SharedPtr<Txt>;
        fn p_assign_txt(p: &mut SharedPtr<Txt>, q: &SharedPtr<Txt>);
        fn p_swap_txt(p: &mut SharedPtr<Txt>, q: &mut SharedPtr<Txt>);
        fn p_reset_txt(p: &mut SharedPtr<Txt>);
        fn p_wassign_txt(p: &mut WeakPtr<Txt>, q: &SharedPtr<Txt>);
        fn p_count_txt(p: &SharedPtr<Txt>) -> usize;
        fn p_wcount_txt(p: &WeakPtr<Txt>) -> usize;
        fn p_addr_txt(p: &SharedPtr<Txt>) -> usize;
        fn p_rclone_txt(p: &SharedPtr<Txt>) -> SharedPtr<Txt>;
        fn p_rmove_txt(p: SharedPtr<Txt>) -> SharedPtr<Txt>;
        fn p_rdrop_txt(p: SharedPtr<Txt>);
        fn p_rlock_txt(p: &WeakPtr<Txt>) -> SharedPtr<Txt>;
        fn p_rweak_txt(p: &SharedPtr<Txt>) -> WeakPtr<Txt>;
        fn p_rwdrop_txt(p: WeakPtr<Txt>);
        fn p_copy_pod(p: &SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn p_move_pod(p: SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn p_drop_pod(p: SharedPtr<Pod>);
        fn p_weak_pod(p: &SharedPtr<Pod>) -> WeakPtr<Pod>;
        fn p_lock_pod(p: &WeakPtr<Pod>) -> SharedPtr<Pod>;
        fn p_wcopy_pod(p: &WeakPtr<Pod>) -> WeakPtr<Pod>;
        fn p_wmove_pod(p: WeakPtr<Pod>) -> WeakPtr<Pod>;
        fn p_wdrop_pod(p: WeakPtr<Pod>);
        fn p_new_pod(id: u64) -> SharedPtr<Pod>;
        fn p_assign_pod(p: &mut SharedPtr<Pod>, q: &SharedPtr<Pod>);
        fn p_swap_pod(p: &mut SharedPtr<Pod>, q: &mut SharedPtr<Pod>);
        fn p_reset_pod(p: &mut SharedPtr<Pod>);
        fn p_wassign_pod(p: &mut WeakPtr<Pod>, q: &SharedPtr<Pod>);
        fn p_count_pod(p: &SharedPtr<Pod>) -> usize;
        fn p_wcount_pod(p: &WeakPtr<Pod>) -> usize;
        fn p_addr_pod(p: &SharedPtr<Pod>) -> usize;
        fn p_rclone_pod(p: &SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn p_rmove_pod(p: SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn p_rdrop_pod(p: SharedPtr<Pod>);
        fn p_rlock_pod(p: &WeakPtr<Pod>) -> SharedPtr<Pod>;
        fn p_rweak_pod(p: &SharedPtr<Pod>) -> WeakPtr<Pod>;
        fn p_rwdrop_pod(p: WeakPtr<Pod>);
        fn p_copy_u64(p: &SharedPtr<u64>) -> SharedPtr<u64>;
        fn p_move_u64(p: SharedPtr<u64>) -> SharedPtr<u64>;
        fn p_drop_u64(p: SharedPtr<u64>);
        fn p_weak_u64(p: &SharedPtr<u64>) -> WeakPtr<u64>;
        fn p_lock_u64(p: &WeakPtr<u64>) -> SharedPtr<u64>;
        fn p_wcopy_u64(p: &WeakPtr<u64>) -> WeakPtr<u64>;
        fn p_wmove_u64(p: WeakPtr<u64>) -> WeakPtr<u64>;
        fn p_wdrop_u64(p: WeakPtr<u64>);
        fn p_new_u64(id: u64) -> SharedPtr<u64>;
        fn p_assign_u64(p: &mut SharedPtr<u64>, q: &SharedPtr<u64>);
        fn p_swap_u64(p: &mut SharedPtr<u64>, q: &mut SharedPtr<u64>);
        fn p_reset_u64(p: &mut SharedPtr<u64>);
        fn p_wassign_u64(p: &mut WeakPtr<u64>, q: &SharedPtr<u64>);
        fn p_count_u64(p: &SharedPtr<u64>) -> usize;
        fn p_wcount_u64(p: &WeakPtr<u64>) -> usize;
        fn p_addr_u64(p: &SharedPtr<u64>) -> usize;
        fn p_rclone_u64(p: &SharedPtr<u64>) -> SharedPtr<u64>;
        fn p_rmove_u64(p: SharedPtr<u64>) -> SharedPtr<u64>;
        fn p_rdrop_u64(p: SharedPtr<u64>);
        fn p_rlock_u64(p: &WeakPtr<u64>) -> SharedPtr<u64>;
        fn p_rweak_u64(p: &SharedPtr<u64>) -> WeakPtr<u64>;
        fn p_rwdrop_u64(p: WeakPtr<u64>);
        fn p_copy_str(p: &SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn p_move_str(p: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn p_drop_str(p: SharedPtr<CxxString>);
        fn p_weak_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString>;
        fn p_lock_str(p: &WeakPtr<CxxString>) -> SharedPtr<CxxString>;
        fn p_wcopy_str(p: &WeakPtr<CxxString>) -> WeakPtr<CxxString>;
        fn p_wmove_str(p: WeakPtr<CxxString>) -> WeakPtr<CxxString>;
        fn p_wdrop_str(p: WeakPtr<CxxString>);
        fn p_new_str(id: u64) -> SharedPtr<CxxString>;
        fn p_assign_str(p: &mut SharedPtr<CxxString>, q: &SharedPtr<CxxString>);
        fn p_swap_str(p: &mut SharedPtr<CxxString>, q: &mut SharedPtr<CxxString>);
        fn p_reset_str(p: &mut SharedPtr<CxxString>);
        fn p_wassign_str(p: &mut WeakPtr<CxxString>, q: &SharedPtr<CxxString>);
        fn p_count_str(p: &SharedPtr<CxxString>) -> usize;
        fn p_wcount_str(p: &WeakPtr<CxxString>) -> usize;
        fn p_addr_str(p: &SharedPtr<CxxString>) -> usize;
        fn p_rclone_str(p: &SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn p_rmove_str(p: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn p_rdrop_str(p: SharedPtr<CxxString>);
        fn p_rlock_str(p: &WeakPtr<CxxString>) -> SharedPtr<CxxString>;
        fn p_rweak_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString>;
        fn p_rwdrop_str(p: WeakPtr<CxxString>);
    }
    extern "Rust" {
        fn pr_clone_obj(p: &SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn pr_move_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj>;
        fn pr_drop_obj(p: SharedPtr<Obj>);
        fn pr_lock_obj(p: &WeakPtr<Obj>) -> SharedPtr<Obj>;
        fn pr_weak_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj>;
        fn pr_wdrop_obj(p: WeakPtr<Obj>);
        fn pr_clone_txt(p: &SharedPtr<Txt>) -> SharedPtr<Txt>;
        fn pr_move_txt(p: SharedPtr<Txt>) -> SharedPtr<Txt>;
        fn pr_drop_txt(p: SharedPtr<Txt>);
        fn pr_lock_txt(p: &WeakPtr<Txt>) -> SharedPtr<Txt>;
        fn pr_weak_txt(p: &SharedPtr<Txt>) -> WeakPtr<Txt>;
        fn pr_wdrop_txt(p: WeakPtr<Txt>);
        fn pr_clone_pod(p: &SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn pr_move_pod(p: SharedPtr<Pod>) -> SharedPtr<Pod>;
        fn pr_drop_pod(p: SharedPtr<Pod>);
        fn pr_lock_pod(p: &WeakPtr<Pod>) -> SharedPtr<Pod>;
        fn pr_weak_pod(p: &SharedPtr<Pod>) -> WeakPtr<Pod>;
        fn pr_wdrop_pod(p: WeakPtr<Pod>);
        fn pr_clone_u64(p: &SharedPtr<u64>) -> SharedPtr<u64>;
        fn pr_move_u64(p: SharedPtr<u64>) -> SharedPtr<u64>;
        fn pr_drop_u64(p: SharedPtr<u64>);
        fn pr_lock_u64(p: &WeakPtr<u64>) -> SharedPtr<u64>;
        fn pr_weak_u64(p: &SharedPtr<u64>) -> WeakPtr<u64>;
        fn pr_wdrop_u64(p: WeakPtr<u64>);
        fn pr_clone_str(p: &SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn pr_move_str(p: SharedPtr<CxxString>) -> SharedPtr<CxxString>;
        fn pr_drop_str(p: SharedPtr<CxxString>);
        fn pr_lock_str(p: &WeakPtr<CxxString>) -> SharedPtr<CxxString>;
        fn pr_weak_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString>;
        fn pr_wdrop_str(p: WeakPtr<CxxString>);
    }
}
pub trait PK: cxx::memory::SharedPtrTarget + cxx::memory::WeakPtrTarget + PKRust + Sized + 'static {
    fn copy(p: &SharedPtr<Self>) -> SharedPtr<Self>;
    fn r#move(p: SharedPtr<Self>) -> SharedPtr<Self>;
    fn drop(p: SharedPtr<Self>);
    fn weak(p: &SharedPtr<Self>) -> WeakPtr<Self>;
    fn lock(p: &WeakPtr<Self>) -> SharedPtr<Self>;
    fn wcopy(p: &WeakPtr<Self>) -> WeakPtr<Self>;
    fn wmove(p: WeakPtr<Self>) -> WeakPtr<Self>;
    fn wdrop(p: WeakPtr<Self>);
    fn new(id: u64) -> SharedPtr<Self>;
    fn assign(p: &mut SharedPtr<Self>, q: &SharedPtr<Self>);
    fn swap(p: &mut SharedPtr<Self>, q: &mut SharedPtr<Self>);
    fn reset(p: &mut SharedPtr<Self>);
    fn wassign(p: &mut WeakPtr<Self>, q: &SharedPtr<Self>);
    fn count(p: &SharedPtr<Self>) -> usize;
    fn wcount(p: &WeakPtr<Self>) -> usize;
    fn addr(p: &SharedPtr<Self>) -> usize;
    fn rclone(p: &SharedPtr<Self>) -> SharedPtr<Self>;
    fn rmove(p: SharedPtr<Self>) -> SharedPtr<Self>;
    fn rdrop(p: SharedPtr<Self>);
    fn rlock(p: &WeakPtr<Self>) -> SharedPtr<Self>;
    fn rweak(p: &SharedPtr<Self>) -> WeakPtr<Self>;
    fn rwdrop(p: WeakPtr<Self>);
    fn st() -> &'static mut KState<Self>;
}
fn pr_clone_obj(p: &SharedPtr<Obj>) -> SharedPtr<Obj> { p.clone() }
fn pr_move_obj(p: SharedPtr<Obj>) -> SharedPtr<Obj> { p }
fn pr_drop_obj(p: SharedPtr<Obj>) { drop(p) }
fn pr_lock_obj(p: &WeakPtr<Obj>) -> SharedPtr<Obj> { p.upgrade() }
fn pr_weak_obj(p: &SharedPtr<Obj>) -> WeakPtr<Obj> { p.downgrade() }
fn pr_wdrop_obj(p: WeakPtr<Obj>) { drop(p) }
impl PK for Obj {
    fn copy(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_copy_obj(p) }
    fn r#move(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_move_obj(p) }
    fn drop(p: SharedPtr<Self>) { pb::p_drop_obj(p) }
    fn weak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_weak_obj(p) }
    fn lock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_lock_obj(p) }
    fn wcopy(p: &WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wcopy_obj(p) }
    fn wmove(p: WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wmove_obj(p) }
    fn wdrop(p: WeakPtr<Self>) { pb::p_wdrop_obj(p) }
    fn new(id: u64) -> SharedPtr<Self> { pb::p_new_obj(id) }
    fn assign(p: &mut SharedPtr<Self>, q: &SharedPtr<Self>) { pb::p_assign_obj(p, q) }
    fn swap(p: &mut SharedPtr<Self>, q: &mut SharedPtr<Self>) { pb::p_swap_obj(p, q) }
    fn reset(p: &mut SharedPtr<Self>) { pb::p_reset_obj(p) }
    fn wassign(p: &mut WeakPtr<Self>, q: &SharedPtr<Self>) { pb::p_wassign_obj(p, q) }
    fn count(p: &SharedPtr<Self>) -> usize { pb::p_count_obj(p) }
    fn wcount(p: &WeakPtr<Self>) -> usize { pb::p_wcount_obj(p) }
    fn addr(p: &SharedPtr<Self>) -> usize { pb::p_addr_obj(p) }
    fn rclone(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rclone_obj(p) }
    fn rmove(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rmove_obj(p) }
    fn rdrop(p: SharedPtr<Self>) { pb::p_rdrop_obj(p) }
    fn rlock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_rlock_obj(p) }
    fn rweak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_rweak_obj(p) }
    fn rwdrop(p: WeakPtr<Self>) { pb::p_rwdrop_obj(p) }
    fn st() -> &'static mut KState<Self> {
        static mut S: KState<Obj> = KState::new();
        unsafe { &mut *(&raw mut S) }
    }
}
fn pr_clone_txt(p: &SharedPtr<Txt>) -> SharedPtr<Txt> { p.clone() }
fn pr_move_txt(p: SharedPtr<Txt>) -> SharedPtr<Txt> { p }
fn pr_drop_txt(p: SharedPtr<Txt>) { drop(p) }
fn pr_lock_txt(p: &WeakPtr<Txt>) -> SharedPtr<Txt> { p.upgrade() }
fn pr_weak_txt(p: &SharedPtr<Txt>) -> WeakPtr<Txt> { p.downgrade() }
fn pr_wdrop_txt(p: WeakPtr<Txt>) { drop(p) }
impl PK for Txt {
    fn copy(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_copy_txt(p) }
    fn r#move(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_move_txt(p) }
    fn drop(p: SharedPtr<Self>) { pb::p_drop_txt(p) }
    fn weak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_weak_txt(p) }
    fn lock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_lock_txt(p) }
    fn wcopy(p: &WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wcopy_txt(p) }
    fn wmove(p: WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wmove_txt(p) }
    fn wdrop(p: WeakPtr<Self>) { pb::p_wdrop_txt(p) }
    fn new(id: u64) -> SharedPtr<Self> { pb::p_new_txt(id) }
    fn assign(p: &mut SharedPtr<Self>, q: &SharedPtr<Self>) { pb::p_assign_txt(p, q) }
    fn swap(p: &mut SharedPtr<Self>, q: &mut SharedPtr<Self>) { pb::p_swap_txt(p, q) }
    fn reset(p: &mut SharedPtr<Self>) { pb::p_reset_txt(p) }
    fn wassign(p: &mut WeakPtr<Self>, q: &SharedPtr<Self>) { pb::p_wassign_txt(p, q) }
    fn count(p: &SharedPtr<Self>) -> usize { pb::p_count_txt(p) }
    fn wcount(p: &WeakPtr<Self>) -> usize { pb::p_wcount_txt(p) }
    fn addr(p: &SharedPtr<Self>) -> usize { pb::p_addr_txt(p) }
    fn rclone(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rclone_txt(p) }
    fn rmove(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rmove_txt(p) }
    fn rdrop(p: SharedPtr<Self>) { pb::p_rdrop_txt(p) }
    fn rlock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_rlock_txt(p) }
    fn rweak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_rweak_txt(p) }
    fn rwdrop(p: WeakPtr<Self>) { pb::p_rwdrop_txt(p) }
    fn st() -> &'static mut KState<Self> {
        static mut S: KState<Txt> = KState::new();
        unsafe { &mut *(&raw mut S) }
    }
}
fn pr_clone_pod(p: &SharedPtr<Pod>) -> SharedPtr<Pod> { p.clone() }
fn pr_move_pod(p: SharedPtr<Pod>) -> SharedPtr<Pod> { p }
fn pr_drop_pod(p: SharedPtr<Pod>) { drop(p) }
fn pr_lock_pod(p: &WeakPtr<Pod>) -> SharedPtr<Pod> { p.upgrade() }
fn pr_weak_pod(p: &SharedPtr<Pod>) -> WeakPtr<Pod> { p.downgrade() }
fn pr_wdrop_pod(p: WeakPtr<Pod>) { drop(p) }
impl PK for Pod {
    fn copy(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_copy_pod(p) }
    fn r#move(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_move_pod(p) }
    fn drop(p: SharedPtr<Self>) { pb::p_drop_pod(p) }
    fn weak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_weak_pod(p) }
    fn lock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_lock_pod(p) }
    fn wcopy(p: &WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wcopy_pod(p) }
    fn wmove(p: WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wmove_pod(p) }
    fn wdrop(p: WeakPtr<Self>) { pb::p_wdrop_pod(p) }
    fn new(id: u64) -> SharedPtr<Self> { pb::p_new_pod(id) }
    fn assign(p: &mut SharedPtr<Self>, q: &SharedPtr<Self>) { pb::p_assign_pod(p, q) }
    fn swap(p: &mut SharedPtr<Self>, q: &mut SharedPtr<Self>) { pb::p_swap_pod(p, q) }
    fn reset(p: &mut SharedPtr<Self>) { pb::p_reset_pod(p) }
    fn wassign(p: &mut WeakPtr<Self>, q: &SharedPtr<Self>) { pb::p_wassign_pod(p, q) }
    fn count(p: &SharedPtr<Self>) -> usize { pb::p_count_pod(p) }
    fn wcount(p: &WeakPtr<Self>) -> usize { pb::p_wcount_pod(p) }
    fn addr(p: &SharedPtr<Self>) -> usize { pb::p_addr_pod(p) }
    fn rclone(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rclone_pod(p) }
    fn rmove(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rmove_pod(p) }
    fn rdrop(p: SharedPtr<Self>) { pb::p_rdrop_pod(p) }
    fn rlock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_rlock_pod(p) }
    fn rweak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_rweak_pod(p) }
    fn rwdrop(p: WeakPtr<Self>) { pb::p_rwdrop_pod(p) }
    fn st() -> &'static mut KState<Self> {
        static mut S: KState<Pod> = KState::new();
        unsafe { &mut *(&raw mut S) }
    }
}
fn pr_clone_u64(p: &SharedPtr<u64>) -> SharedPtr<u64> { p.clone() }
fn pr_move_u64(p: SharedPtr<u64>) -> SharedPtr<u64> { p }
fn pr_drop_u64(p: SharedPtr<u64>) { drop(p) }
fn pr_lock_u64(p: &WeakPtr<u64>) -> SharedPtr<u64> { p.upgrade() }
fn pr_weak_u64(p: &SharedPtr<u64>) -> WeakPtr<u64> { p.downgrade() }
fn pr_wdrop_u64(p: WeakPtr<u64>) { drop(p) }
impl PK for u64 {
    fn copy(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_copy_u64(p) }
    fn r#move(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_move_u64(p) }
    fn drop(p: SharedPtr<Self>) { pb::p_drop_u64(p) }
    fn weak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_weak_u64(p) }
    fn lock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_lock_u64(p) }
    fn wcopy(p: &WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wcopy_u64(p) }
    fn wmove(p: WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wmove_u64(p) }
    fn wdrop(p: WeakPtr<Self>) { pb::p_wdrop_u64(p) }
    fn new(id: u64) -> SharedPtr<Self> { pb::p_new_u64(id) }
    fn assign(p: &mut SharedPtr<Self>, q: &SharedPtr<Self>) { pb::p_assign_u64(p, q) }
    fn swap(p: &mut SharedPtr<Self>, q: &mut SharedPtr<Self>) { pb::p_swap_u64(p, q) }
    fn reset(p: &mut SharedPtr<Self>) { pb::p_reset_u64(p) }
    fn wassign(p: &mut WeakPtr<Self>, q: &SharedPtr<Self>) { pb::p_wassign_u64(p, q) }
    fn count(p: &SharedPtr<Self>) -> usize { pb::p_count_u64(p) }
    fn wcount(p: &WeakPtr<Self>) -> usize { pb::p_wcount_u64(p) }
    fn addr(p: &SharedPtr<Self>) -> usize { pb::p_addr_u64(p) }
    fn rclone(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rclone_u64(p) }
    fn rmove(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rmove_u64(p) }
    fn rdrop(p: SharedPtr<Self>) { pb::p_rdrop_u64(p) }
    fn rlock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_rlock_u64(p) }
    fn rweak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_rweak_u64(p) }
    fn rwdrop(p: WeakPtr<Self>) { pb::p_rwdrop_u64(p) }
    fn st() -> &'static mut KState<Self> {
        static mut S: KState<u64> = KState::new();
        unsafe { &mut *(&raw mut S) }
    }
}
fn pr_clone_str(p: &SharedPtr<CxxString>) -> SharedPtr<CxxString> { p.clone() }
fn pr_move_str(p: SharedPtr<CxxString>) -> SharedPtr<CxxString> { p }
fn pr_drop_str(p: SharedPtr<CxxString>) { drop(p) }
fn pr_lock_str(p: &WeakPtr<CxxString>) -> SharedPtr<CxxString> { p.upgrade() }
fn pr_weak_str(p: &SharedPtr<CxxString>) -> WeakPtr<CxxString> { p.downgrade() }
fn pr_wdrop_str(p: WeakPtr<CxxString>) { drop(p) }
impl PK for CxxString {
    fn copy(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_copy_str(p) }
    fn r#move(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_move_str(p) }
    fn drop(p: SharedPtr<Self>) { pb::p_drop_str(p) }
    fn weak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_weak_str(p) }
    fn lock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_lock_str(p) }
    fn wcopy(p: &WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wcopy_str(p) }
    fn wmove(p: WeakPtr<Self>) -> WeakPtr<Self> { pb::p_wmove_str(p) }
    fn wdrop(p: WeakPtr<Self>) { pb::p_wdrop_str(p) }
    fn new(id: u64) -> SharedPtr<Self> { pb::p_new_str(id) }
    fn assign(p: &mut SharedPtr<Self>, q: &SharedPtr<Self>) { pb::p_assign_str(p, q) }
    fn swap(p: &mut SharedPtr<Self>, q: &mut SharedPtr<Self>) { pb::p_swap_str(p, q) }
    fn reset(p: &mut SharedPtr<Self>) { pb::p_reset_str(p) }
    fn wassign(p: &mut WeakPtr<Self>, q: &SharedPtr<Self>) { pb::p_wassign_str(p, q) }
    fn count(p: &SharedPtr<Self>) -> usize { pb::p_count_str(p) }
    fn wcount(p: &WeakPtr<Self>) -> usize { pb::p_wcount_str(p) }
    fn addr(p: &SharedPtr<Self>) -> usize { pb::p_addr_str(p) }
    fn rclone(p: &SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rclone_str(p) }
    fn rmove(p: SharedPtr<Self>) -> SharedPtr<Self> { pb::p_rmove_str(p) }
    fn rdrop(p: SharedPtr<Self>) { pb::p_rdrop_str(p) }
    fn rlock(p: &WeakPtr<Self>) -> SharedPtr<Self> { pb::p_rlock_str(p) }
    fn rweak(p: &SharedPtr<Self>) -> WeakPtr<Self> { pb::p_rweak_str(p) }
    fn rwdrop(p: WeakPtr<Self>) { pb::p_rwdrop_str(p) }
    fn st() -> &'static mut KState<Self> {
        static mut S: KState<CxxString> = KState::new();
        unsafe { &mut *(&raw mut S) }
    }
}
