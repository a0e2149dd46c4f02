// one block per target type
#pragma once
#include "rtsim/cxx/types.h"
#include "rtsim/src/gen_bridge.rs.h"
namespace rt {
std::shared_ptr<Obj> p_copy_obj(const std::shared_ptr<Obj> &p);
std::shared_ptr<Obj> p_move_obj(std::shared_ptr<Obj> p);
void p_drop_obj(std::shared_ptr<Obj> p);
std::weak_ptr<Obj> p_weak_obj(const std::shared_ptr<Obj> &p);
std::shared_ptr<Obj> p_lock_obj(const std::weak_ptr<Obj> &p);
std::weak_ptr<Obj> p_wcopy_obj(const std::weak_ptr<Obj> &p);
std::weak_ptr<Obj> p_wmove_obj(std::weak_ptr<Obj> p);
void p_wdrop_obj(std::weak_ptr<Obj> p);
std::shared_ptr<Obj> p_new_obj(uint64_t id);
void p_assign_obj(std::shared_ptr<Obj> &p, const std::shared_ptr<Obj> &q);
void p_swap_obj(std::shared_ptr<Obj> &p, std::shared_ptr<Obj> &q);
void p_reset_obj(std::shared_ptr<Obj> &p);
void p_wassign_obj(std::weak_ptr<Obj> &p, const std::shared_ptr<Obj> &q);
size_t p_count_obj(const std::shared_ptr<Obj> &p);
size_t p_wcount_obj(const std::weak_ptr<Obj> &p);
size_t p_addr_obj(const std::shared_ptr<Obj> &p);
std::shared_ptr<Obj> p_rclone_obj(const std::shared_ptr<Obj> &p);
std::shared_ptr<Obj> p_rmove_obj(std::shared_ptr<Obj> p);
void p_rdrop_obj(std::shared_ptr<Obj> p);
std::shared_ptr<Obj> p_rlock_obj(const std::weak_ptr<Obj> &p);
std::weak_ptr<Obj> p_rweak_obj(const std::shared_ptr<Obj> &p);
void p_rwdrop_obj(std::weak_ptr<Obj> p);
std::shared_ptr<Txt> p_copy_txt(const std::shared_ptr<Txt> &p);
std::shared_ptr<Txt> p_move_txt(std::shared_ptr<Txt> p);
void p_drop_txt(std::shared_ptr<Txt> p);
std::weak_ptr<Txt> p_weak_txt(const std::shared_ptr<Txt> &p);
std::shared_ptr<Txt> p_lock_txt(const std::weak_ptr<Txt> &p);
std::weak_ptr<Txt> p_wcopy_txt(const std::weak_ptr<Txt> &p);
std::weak_ptr<Txt> p_wmove_txt(std::weak_ptr<Txt> p);
void p_wdrop_txt(std::weak_ptr<Txt> p);
std::shared_ptr<Txt> p_new_txt(uint64_t id);
void p_assign_txt(std::shared_ptr<Txt> &p, const std::shared_ptr<Txt> &q);
void p_swap_txt(std::shared_ptr<Txt> &p, std::shared_ptr<Txt> &q);
void p_reset_txt(std::shared_ptr<Txt> &p);
void p_wassign_txt(std::weak_ptr<Txt> &p, const std::shared_ptr<Txt> &q);
size_t p_count_txt(const std::shared_ptr<Txt> &p);
size_t p_wcount_txt(const std::weak_ptr<Txt> &p);
size_t p_addr_txt(const std::shared_ptr<Txt> &p);
std::shared_ptr<Txt> p_rclone_txt(const std::shared_ptr<Txt> &p);
std::shared_ptr<Txt> p_rmove_txt(std::shared_ptr<Txt> p);
void p_rdrop_txt(std::shared_ptr<Txt> p);
std::shared_ptr<Txt> p_rlock_txt(const std::weak_ptr<Txt> &p);
std::weak_ptr<Txt> p_rweak_txt(const std::shared_ptr<Txt> &p);
void p_rwdrop_txt(std::weak_ptr<Txt> p);
std::shared_ptr<Pod> p_copy_pod(const std::shared_ptr<Pod> &p);
std::shared_ptr<Pod> p_move_pod(std::shared_ptr<Pod> p);
void p_drop_pod(std::shared_ptr<Pod> p);
std::weak_ptr<Pod> p_weak_pod(const std::shared_ptr<Pod> &p);
std::shared_ptr<Pod> p_lock_pod(const std::weak_ptr<Pod> &p);
std::weak_ptr<Pod> p_wcopy_pod(const std::weak_ptr<Pod> &p);
std::weak_ptr<Pod> p_wmove_pod(std::weak_ptr<Pod> p);
void p_wdrop_pod(std::weak_ptr<Pod> p);
std::shared_ptr<Pod> p_new_pod(uint64_t id);
void p_assign_pod(std::shared_ptr<Pod> &p, const std::shared_ptr<Pod> &q);
void p_swap_pod(std::shared_ptr<Pod> &p, std::shared_ptr<Pod> &q);
void p_reset_pod(std::shared_ptr<Pod> &p);
void p_wassign_pod(std::weak_ptr<Pod> &p, const std::shared_ptr<Pod> &q);
size_t p_count_pod(const std::shared_ptr<Pod> &p);
size_t p_wcount_pod(const std::weak_ptr<Pod> &p);
size_t p_addr_pod(const std::shared_ptr<Pod> &p);
std::shared_ptr<Pod> p_rclone_pod(const std::shared_ptr<Pod> &p);
std::shared_ptr<Pod> p_rmove_pod(std::shared_ptr<Pod> p);
void p_rdrop_pod(std::shared_ptr<Pod> p);
std::shared_ptr<Pod> p_rlock_pod(const std::weak_ptr<Pod> &p);
std::weak_ptr<Pod> p_rweak_pod(const std::shared_ptr<Pod> &p);
void p_rwdrop_pod(std::weak_ptr<Pod> p);
std::shared_ptr<uint64_t> p_copy_u64(const std::shared_ptr<uint64_t> &p);
std::shared_ptr<uint64_t> p_move_u64(std::shared_ptr<uint64_t> p);
void p_drop_u64(std::shared_ptr<uint64_t> p);
std::weak_ptr<uint64_t> p_weak_u64(const std::shared_ptr<uint64_t> &p);
std::shared_ptr<uint64_t> p_lock_u64(const std::weak_ptr<uint64_t> &p);
std::weak_ptr<uint64_t> p_wcopy_u64(const std::weak_ptr<uint64_t> &p);
std::weak_ptr<uint64_t> p_wmove_u64(std::weak_ptr<uint64_t> p);
void p_wdrop_u64(std::weak_ptr<uint64_t> p);
std::shared_ptr<uint64_t> p_new_u64(uint64_t id);
void p_assign_u64(std::shared_ptr<uint64_t> &p, const std::shared_ptr<uint64_t> &q);
void p_swap_u64(std::shared_ptr<uint64_t> &p, std::shared_ptr<uint64_t> &q);
void p_reset_u64(std::shared_ptr<uint64_t> &p);
void p_wassign_u64(std::weak_ptr<uint64_t> &p, const std::shared_ptr<uint64_t> &q);
size_t p_count_u64(const std::shared_ptr<uint64_t> &p);
size_t p_wcount_u64(const std::weak_ptr<uint64_t> &p);
size_t p_addr_u64(const std::shared_ptr<uint64_t> &p);
std::shared_ptr<uint64_t> p_rclone_u64(const std::shared_ptr<uint64_t> &p);
std::shared_ptr<uint64_t> p_rmove_u64(std::shared_ptr<uint64_t> p);
void p_rdrop_u64(std::shared_ptr<uint64_t> p);
std::shared_ptr<uint64_t> p_rlock_u64(const std::weak_ptr<uint64_t> &p);
std::weak_ptr<uint64_t> p_rweak_u64(const std::shared_ptr<uint64_t> &p);
void p_rwdrop_u64(std::weak_ptr<uint64_t> p);
std::shared_ptr<std::string> p_copy_str(const std::shared_ptr<std::string> &p);
std::shared_ptr<std::string> p_move_str(std::shared_ptr<std::string> p);
void p_drop_str(std::shared_ptr<std::string> p);
std::weak_ptr<std::string> p_weak_str(const std::shared_ptr<std::string> &p);
std::shared_ptr<std::string> p_lock_str(const std::weak_ptr<std::string> &p);
std::weak_ptr<std::string> p_wcopy_str(const std::weak_ptr<std::string> &p);
std::weak_ptr<std::string> p_wmove_str(std::weak_ptr<std::string> p);
void p_wdrop_str(std::weak_ptr<std::string> p);
std::shared_ptr<std::string> p_new_str(uint64_t id);
void p_assign_str(std::shared_ptr<std::string> &p, const std::shared_ptr<std::string> &q);
void p_swap_str(std::shared_ptr<std::string> &p, std::shared_ptr<std::string> &q);
void p_reset_str(std::shared_ptr<std::string> &p);
void p_wassign_str(std::weak_ptr<std::string> &p, const std::shared_ptr<std::string> &q);
size_t p_count_str(const std::shared_ptr<std::string> &p);
size_t p_wcount_str(const std::weak_ptr<std::string> &p);
size_t p_addr_str(const std::shared_ptr<std::string> &p);
std::shared_ptr<std::string> p_rclone_str(const std::shared_ptr<std::string> &p);
std::shared_ptr<std::string> p_rmove_str(std::shared_ptr<std::string> p);
void p_rdrop_str(std::shared_ptr<std::string> p);
std::shared_ptr<std::string> p_rlock_str(const std::weak_ptr<std::string> &p);
std::weak_ptr<std::string> p_rweak_str(const std::shared_ptr<std::string> &p);
void p_rwdrop_str(std::weak_ptr<std::string> p);
}
