//! One entry per question put to the engine.  `h_*` run in both tiers, `t_*`
//! only in the thorough tier, `k_*` demonstrate a known finding.
mod balance;
mod codec;
mod consensus;
mod emit;
mod pool;
mod store;
mod util;

macro_rules! entries {
    ($($m:ident: $($f:ident)*;)*) => {
        $($(
            #[no_mangle]
            pub extern "C-unwind" fn $f() { $m::$f() }
        )*)*
        #[allow(clippy::type_complete)]
        pub static ENTRIES: &[(&str, extern "C-unwind" fn())] = &[ $($( (stringify!($f), $f), )*)* ];
    };
}
entries! {
    codec:
        h_p01_roundtrip h_p01_payload h_p01_long t_p01_roundtrip h_p01_decode
        h_p02_info h_p02_txblock h_p02_txblock_fee h_p02_txblock_many t_p02_txblock h_p02_summary h_p02_derivative h_p02_dispatch
        h_p03_transaction t_p03_transaction h_p03_info h_p03_txblock t_p03_txblock h_p03_summary h_p03_derivative h_p03_main
        h_p03_u256 h_p03_biguint
        h_p04_u256 h_p04_u256_decode h_p04_biguint t_p04_biguint h_p04_biguint_decode
        h_p24_lz h_p24_lz_long h_p24_fee;
    consensus:
        h_p05_own h_p05_altered h_p05_sizes h_p05_long t_p05_altered h_p05_forged h_p05_wrong_key h_p05_bad_key
        h_p06_step h_p06_any h_p07_exact h_p07_more t_p07_exact
        h_p08_root h_p08_root_large t_p08_root h_p08_member h_p08_member_large t_p08_member h_p08_verify t_p08_verify
        h_p09_binding h_p09_related h_p09_related_large h_p09_heights t_p09_related t_p09_binding h_p09_outsider h_p09_outsider_large t_p09_outsider k_p09_and k_p09_levels
        h_p10_transactions h_p10_many h_p10_heights h_p10_kinds h_p10_bits t_p10_all h_p10_any_difficulty t_p10_any_difficulty h_p10_first;
    pool:
        h_p21_queue h_p21_large h_p21_drain t_p21_drain t_p21_queue h_p29_pair h_p29_triple h_p34_order;
    store:
        h_p12_genesis h_p12_history t_p12_history h_p12_high h_p12_many t_p12_many
        h_p13_history t_p13_history h_p13_high h_p13_separate h_p13_many t_p13_many
        h_p18_store t_p18_store h_p18_known t_p18_known h_p18_long h_p18_many h_p18_sizes h_p18_refused h_p18_empty
        h_p19_main h_p19_derivative h_p19_high h_p19_tree h_p19_more h_p19_reopen
        h_p20_main t_p20_main h_p20_long h_p20_again h_p20_unflushed h_p20_derivative h_p20_create h_p20_tree
        h_p25_roundtrip t_p25_roundtrip h_p25_large h_p25_missing h_p25_truncated h_p25_foreign h_p25_faults h_p25_crash
        h_p27_two_writers h_p27_two_writers_derivative h_p27_reader_inside h_p27_writer_inside h_p27_derivative h_p27_flush
        h_p31_main h_p31_derivative h_p31_flush
        h_p32_copy h_p32_over h_p32_large h_p32_missing h_p32_faults;
    balance:
        h_p14_step h_p14_sizes h_p14_crowd h_p14_amounts h_p14_wide t_p14_wide t_p14_step h_p14_sequence t_p14_sequence
        h_p15_step h_p15_sizes h_p15_crowd h_p15_amounts h_p15_wide t_p15_wide t_p15_step h_p15_sequence t_p15_sequence h_p15_mixed
        h_p16_coins h_p16_gas h_p16_mixed t_p16_coins t_p16_gas
        h_p17_gas h_p17_coins h_p17_fee h_p17_zeros h_p17_long h_p17_huge h_p17_wide h_p17_parties h_p17_twice t_p17_all
        h_p26_step h_p26_sizes h_p26_crowd t_p26_sequence h_p26_fault
        h_p28_balance h_p28_reads h_p28_block h_p28_derivative h_p28_flush h_p28_flush_chains h_p28_files h_p28_files_derivative h_p28_open h_p28_open_derivative h_p28_lookups
        h_p30_one h_p30_sends t_p30_two h_p30_fault h_p30_at_once
        h_p33_coins h_p33_gas t_p33_coins h_p33_first;
    emit:
        h_p35_new h_p35_again h_p35_two h_p36_main h_p36_derivative
        h_p20_epoch h_p33_epoch h_p28_emission h_p28_emission_derivative h_p28_epoch
        h_p11_over h_p11_bits t_p11_bits h_p11_any_difficulty h_p11_many h_p11_later h_p11_heights h_p11_first h_p11_two t_p11_three
        h_p22_accounts h_p22_sizes h_p22_many h_p22_heights t_p22_accounts h_p22_off h_p22_any_height t_p22_any_height h_p22_twice
        h_p23_first h_p23_two t_p23_three h_p23_bits t_p23_bits h_p23_later h_p23_founders h_p23_founding;
}
