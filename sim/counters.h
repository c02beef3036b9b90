#pragma once
enum Counter {
    K_RUNS, K_OPS, K_CALLS, K_SWITCHES, K_STEPS, K_THREADS,
    K_ACCEPT, K_REJECT, K_DONTCARE, K_WRITE_OK, K_WRITE_FAIL,
    // fault kinds that actually fired
    F_ALLOC, F_CRASH_TORN, F_CRASH_COMPLETE, F_CRASH_EMPTY, F_RESTART,
    F_TRUNC, F_BITFLIP, F_ZERO, F_DUPBLOCK, F_SWAPBLOCK, F_STALE, F_MISDIRECT, F_INSERT, F_DELETE,
    F_TOK_DIGIT, F_TOK_NUM, F_TOK_TYPE, F_TOK_KEY, F_TOK_DROP, F_TOK_DUP, F_TOK_EXTRA, F_TOK_REF, F_TOK_STR, F_TOK_DEEP, F_TOK_RUNAWAY,
    F_HOOK_FALSE, F_HOOK_THROW, F_HOOK_NEST, F_POISON,
    F_ENV_TZ, F_ENV_LOCALE_C, F_ENV_LOCALE_CPP, F_ENV_CLOCK, F_ENV_ERRNO, F_ENV_MIDCALL,
    F_PREEMPT, F_PREEMPT_GLOBAL, F_BLOCKED, F_PREFILL, F_KIN,
    // probes: rare conditions reached
    P_SHARED_SRC, P_REF_WRITTEN, P_REF_READ, P_REF_REFUSED, P_FIRST_USE_OVERLAP, P_NESTED_OK, P_LEAK_CHECKED, P_FROZEN_CHECKED,
    P_PATH_CHECKED, P_OFFSET_CHECKED, P_RETRY_OK, P_RECOVER_NEW, P_RECOVER_OLD, P_RECOVER_NONE, P_GUARD_CONTENDED, P_BOOT, P_IDENT_CHECKED, P_TARGET_KEPT, P_HELD_CHECKED,
    K_LAST
};
inline const char* counter_name(int k)
{
    static const char* const names[] = {
    "runs","ops","calls","switches","steps","threads",
    "accept","reject","dontcare","write_ok","write_fail",
    "alloc_fail","crash_torn_write","crash_after_complete_write","crash_before_first_byte","restart",
    "truncate","bit_flip","zeroed_block","duplicated_block","swapped_blocks","stale_tail","misdirected_write","inserted_bytes","deleted_bytes",
    "digit_damage","number_damage","type_damage","key_damage","dropped_token","duplicated_token","extra_token","reference_damage","string_damage","deep_nesting","runaway_nesting",
    "user_code_fails","user_code_throws","nested_call","inexpressible_value",
    "time_zone_change","c_locale_change","cpp_locale_change","clock_jump","errno_noise","environment_change_mid_call",
    "preemption","preemption_at_shared_state","blocked_on_lock","used_target","object_shared_with_earlier_call",
    "shared_source","reference_written","reference_read","reference_refused","first_use_overlap","nested_ok","leak_checked","frozen_checked",
    "path_checked","offset_checked","retry_ok","recovered_new","recovered_old","recovered_none","guard_contended","boot","identity_checked","target_kept","held_checked" };
    static_assert(sizeof(names)/sizeof(names[0]) == K_LAST, "names");
    return names[k];
}
