// Written by bin/plan.py --table.
harnesses! {
    "P01" {
        c1_first_3 = seq::one::<3, ANY, 0>();
        c1_first_4 = seq::one::<4, ANY, 0>();
        c1_first_7 = seq::one::<7, ORD, 0>();
        c2_first_3 = seq::two::<4, 3, ANY, 0>();
        canon_first_4 = seq::canonical::<4, ANY, 0>();
        c1_first_5 = seq::one::<5, ANY, 0>();
        c1_first_9 = seq::one::<9, ORD, 0>();
        c2_first_5 = seq::two::<6, 5, ORD, 0>();
        c1_last_3 = seq::one::<3, ANY, 1>();
        c1_last_4 = seq::one::<4, ANY, 1>();
        c1_last_7 = seq::one::<7, ORD, 1>();
        c2_last_3 = seq::two::<4, 3, ANY, 1>();
        canon_last_4 = seq::canonical::<4, ANY, 1>();
        c1_last_5 = seq::one::<5, ANY, 1>();
        c1_last_9 = seq::one::<9, ORD, 1>();
        c2_last_5 = seq::two::<6, 5, ORD, 1>();
        c1_before_3 = seq::one::<3, ANY, 2>();
        c1_before_4 = seq::one::<4, ANY, 2>();
        c1_before_7 = seq::one::<7, ORD, 2>();
        c2_before_3 = seq::two::<4, 3, ANY, 2>();
        canon_before_4 = seq::canonical::<4, ANY, 2>();
        c1_before_5 = seq::one::<5, ANY, 2>();
        c1_before_9 = seq::one::<9, ORD, 2>();
        c2_before_5 = seq::two::<6, 5, ORD, 2>();
        c1_after_3 = seq::one::<3, ANY, 3>();
        c1_after_4 = seq::one::<4, ANY, 3>();
        c1_after_7 = seq::one::<7, ORD, 3>();
        c2_after_3 = seq::two::<4, 3, ANY, 3>();
        canon_after_4 = seq::canonical::<4, ANY, 3>();
        c1_after_5 = seq::one::<5, ANY, 3>();
        c1_after_9 = seq::one::<9, ORD, 3>();
        c2_after_5 = seq::two::<6, 5, ORD, 3>();
        c1_detach_3 = seq::one::<3, ANY, 4>();
        c1_detach_4 = seq::one::<4, ANY, 4>();
        c1_detach_7 = seq::one::<7, ORD, 4>();
        c2_detach_3 = seq::two::<4, 3, ANY, 4>();
        canon_detach_4 = seq::canonical::<4, ANY, 4>();
        c1_detach_5 = seq::one::<5, ANY, 4>();
        c1_detach_9 = seq::one::<9, ORD, 4>();
        c2_detach_5 = seq::two::<6, 5, ORD, 4>();
        c1_single_3 = seq::one::<3, ANY, 5>();
        c1_single_4 = seq::one::<4, ANY, 5>();
        c1_single_7 = seq::one::<7, ORD, 5>();
        c2_single_3 = seq::two::<4, 3, ANY, 5>();
        canon_single_4 = seq::canonical::<4, ANY, 5>();
        c1_single_5 = seq::one::<5, ANY, 5>();
        c1_single_9 = seq::one::<9, ORD, 5>();
        c2_single_5 = seq::two::<6, 5, ORD, 5>();
        c1_remove_3 = seq::one::<3, ANY, 6>();
        c1_remove_4 = seq::one::<4, ANY, 6>();
        c1_remove_7 = seq::one::<7, ORD, 6>();
        c2_remove_3 = seq::two::<4, 3, ANY, 6>();
        canon_remove_4 = seq::canonical::<4, ANY, 6>();
        c1_remove_5 = seq::one::<5, ANY, 6>();
        c1_remove_9 = seq::one::<9, ORD, 6>();
        c2_remove_5 = seq::two::<6, 5, ORD, 6>();
        hist_3_3 = seq::history::<3, 3>();
        hist_4_3 = seq::history::<4, 3>();
        hist_3_4 = seq::history::<3, 4>();
        hist_3_5 = seq::history::<3, 5>();
        hist_4_4 = seq::history::<4, 4>();
        hist_5_3 = seq::history::<5, 3>();
        c1_first_chain_20 = seq::one::<20, CHAIN, 0>();
        c1_first_fan_20 = seq::one::<20, FAN, 0>();
        c1_first_comb_20 = seq::one::<20, COMB, 0>();
        c1_first_heap_20 = seq::one::<20, HEAP, 0>();
        c1_first_chain_40 = seq::one::<40, CHAIN, 0>();
        c1_first_fan_40 = seq::one::<40, FAN, 0>();
        c1_first_comb_40 = seq::one::<40, COMB, 0>();
        c1_first_heap_40 = seq::one::<40, HEAP, 0>();
        c1_last_chain_20 = seq::one::<20, CHAIN, 1>();
        c1_last_fan_20 = seq::one::<20, FAN, 1>();
        c1_last_comb_20 = seq::one::<20, COMB, 1>();
        c1_last_heap_20 = seq::one::<20, HEAP, 1>();
        c1_last_chain_40 = seq::one::<40, CHAIN, 1>();
        c1_last_fan_40 = seq::one::<40, FAN, 1>();
        c1_last_comb_40 = seq::one::<40, COMB, 1>();
        c1_last_heap_40 = seq::one::<40, HEAP, 1>();
        c1_before_chain_20 = seq::one::<20, CHAIN, 2>();
        c1_before_fan_20 = seq::one::<20, FAN, 2>();
        c1_before_comb_20 = seq::one::<20, COMB, 2>();
        c1_before_heap_20 = seq::one::<20, HEAP, 2>();
        c1_before_chain_40 = seq::one::<40, CHAIN, 2>();
        c1_before_fan_40 = seq::one::<40, FAN, 2>();
        c1_before_comb_40 = seq::one::<40, COMB, 2>();
        c1_before_heap_40 = seq::one::<40, HEAP, 2>();
        c1_after_chain_20 = seq::one::<20, CHAIN, 3>();
        c1_after_fan_20 = seq::one::<20, FAN, 3>();
        c1_after_comb_20 = seq::one::<20, COMB, 3>();
        c1_after_heap_20 = seq::one::<20, HEAP, 3>();
        c1_after_chain_40 = seq::one::<40, CHAIN, 3>();
        c1_after_fan_40 = seq::one::<40, FAN, 3>();
        c1_after_comb_40 = seq::one::<40, COMB, 3>();
        c1_after_heap_40 = seq::one::<40, HEAP, 3>();
        c1_detach_chain_20 = seq::one::<20, CHAIN, 4>();
        c1_detach_fan_20 = seq::one::<20, FAN, 4>();
        c1_detach_comb_20 = seq::one::<20, COMB, 4>();
        c1_detach_heap_20 = seq::one::<20, HEAP, 4>();
        c1_detach_chain_40 = seq::one::<40, CHAIN, 4>();
        c1_detach_fan_40 = seq::one::<40, FAN, 4>();
        c1_detach_comb_40 = seq::one::<40, COMB, 4>();
        c1_detach_heap_40 = seq::one::<40, HEAP, 4>();
        c1_single_chain_20 = seq::one::<20, CHAIN, 5>();
        c1_single_fan_20 = seq::one::<20, FAN, 5>();
        c1_single_comb_20 = seq::one::<20, COMB, 5>();
        c1_single_heap_20 = seq::one::<20, HEAP, 5>();
        c1_single_chain_40 = seq::one::<40, CHAIN, 5>();
        c1_single_fan_40 = seq::one::<40, FAN, 5>();
        c1_single_comb_40 = seq::one::<40, COMB, 5>();
        c1_single_heap_40 = seq::one::<40, HEAP, 5>();
        c1_remove_chain_20 = seq::one::<20, CHAIN, 6>();
        c1_remove_fan_20 = seq::one::<20, FAN, 6>();
        c1_remove_comb_20 = seq::one::<20, COMB, 6>();
        c1_remove_heap_20 = seq::one::<20, HEAP, 6>();
        c1_remove_chain_40 = seq::one::<40, CHAIN, 6>();
        c1_remove_fan_40 = seq::one::<40, FAN, 6>();
        c1_remove_comb_40 = seq::one::<40, COMB, 6>();
        c1_remove_heap_40 = seq::one::<40, HEAP, 6>();
    }
    "P02" {
        ins_first_0_3 = ops::insert::<3, ANY, 0, 0>();
        ins_first_0_4 = ops::insert::<4, ANY, 0, 0>();
        ins_first_0_7 = ops::insert::<7, ORD, 0, 0>();
        ins_first_0_8 = ops::insert::<8, ORD, 0, 0>();
        ins_first_0_5 = ops::insert::<5, ANY, 0, 0>();
        ins_first_0_10 = ops::insert::<10, ORD, 0, 0>();
        ins_first_0_12 = ops::insert::<12, ORD, 0, 0>();
        ins_first_1_4 = ops::insert::<4, ANY, 0, 1>();
        ins_first_1_8 = ops::insert::<8, ORD, 0, 1>();
        ins_first_2_4 = ops::insert::<4, ANY, 0, 2>();
        ins_first_2_8 = ops::insert::<8, ORD, 0, 2>();
        ins_first_chain_24 = ops::insert::<24, CHAIN, 0, 0>();
        ins_first_fan_24 = ops::insert::<24, FAN, 0, 0>();
        ins_first_comb_24 = ops::insert::<24, COMB, 0, 0>();
        ins_first_heap_24 = ops::insert::<24, HEAP, 0, 0>();
        ins_first_chain_48 = ops::insert::<48, CHAIN, 0, 0>();
        ins_first_fan_48 = ops::insert::<48, FAN, 0, 0>();
        ins_first_comb_48 = ops::insert::<48, COMB, 0, 0>();
        ins_first_heap_48 = ops::insert::<48, HEAP, 0, 0>();
        eff_first_3 = seq::effects::<4, 3, ANY, 0, 3>();
        eff_first_4 = seq::effects::<5, 4, ANY, 0, 3>();
        eff_first_5 = seq::effects::<6, 5, ORD, 0, 3>();
        ins_last_0_3 = ops::insert::<3, ANY, 1, 0>();
        ins_last_0_4 = ops::insert::<4, ANY, 1, 0>();
        ins_last_0_7 = ops::insert::<7, ORD, 1, 0>();
        ins_last_0_8 = ops::insert::<8, ORD, 1, 0>();
        ins_last_0_5 = ops::insert::<5, ANY, 1, 0>();
        ins_last_0_10 = ops::insert::<10, ORD, 1, 0>();
        ins_last_0_12 = ops::insert::<12, ORD, 1, 0>();
        ins_last_1_4 = ops::insert::<4, ANY, 1, 1>();
        ins_last_1_8 = ops::insert::<8, ORD, 1, 1>();
        ins_last_2_4 = ops::insert::<4, ANY, 1, 2>();
        ins_last_2_8 = ops::insert::<8, ORD, 1, 2>();
        ins_last_chain_24 = ops::insert::<24, CHAIN, 1, 0>();
        ins_last_fan_24 = ops::insert::<24, FAN, 1, 0>();
        ins_last_comb_24 = ops::insert::<24, COMB, 1, 0>();
        ins_last_heap_24 = ops::insert::<24, HEAP, 1, 0>();
        ins_last_chain_48 = ops::insert::<48, CHAIN, 1, 0>();
        ins_last_fan_48 = ops::insert::<48, FAN, 1, 0>();
        ins_last_comb_48 = ops::insert::<48, COMB, 1, 0>();
        ins_last_heap_48 = ops::insert::<48, HEAP, 1, 0>();
        eff_last_3 = seq::effects::<4, 3, ANY, 1, 3>();
        eff_last_4 = seq::effects::<5, 4, ANY, 1, 3>();
        eff_last_5 = seq::effects::<6, 5, ORD, 1, 3>();
        ins_before_0_3 = ops::insert::<3, ANY, 2, 0>();
        ins_before_0_4 = ops::insert::<4, ANY, 2, 0>();
        ins_before_0_7 = ops::insert::<7, ORD, 2, 0>();
        ins_before_0_8 = ops::insert::<8, ORD, 2, 0>();
        ins_before_0_5 = ops::insert::<5, ANY, 2, 0>();
        ins_before_0_10 = ops::insert::<10, ORD, 2, 0>();
        ins_before_0_12 = ops::insert::<12, ORD, 2, 0>();
        ins_before_1_4 = ops::insert::<4, ANY, 2, 1>();
        ins_before_1_8 = ops::insert::<8, ORD, 2, 1>();
        ins_before_2_4 = ops::insert::<4, ANY, 2, 2>();
        ins_before_2_8 = ops::insert::<8, ORD, 2, 2>();
        ins_before_chain_24 = ops::insert::<24, CHAIN, 2, 0>();
        ins_before_fan_24 = ops::insert::<24, FAN, 2, 0>();
        ins_before_comb_24 = ops::insert::<24, COMB, 2, 0>();
        ins_before_heap_24 = ops::insert::<24, HEAP, 2, 0>();
        ins_before_chain_48 = ops::insert::<48, CHAIN, 2, 0>();
        ins_before_fan_48 = ops::insert::<48, FAN, 2, 0>();
        ins_before_comb_48 = ops::insert::<48, COMB, 2, 0>();
        ins_before_heap_48 = ops::insert::<48, HEAP, 2, 0>();
        eff_before_3 = seq::effects::<4, 3, ANY, 2, 3>();
        eff_before_4 = seq::effects::<5, 4, ANY, 2, 3>();
        eff_before_5 = seq::effects::<6, 5, ORD, 2, 3>();
        ins_after_0_3 = ops::insert::<3, ANY, 3, 0>();
        ins_after_0_4 = ops::insert::<4, ANY, 3, 0>();
        ins_after_0_7 = ops::insert::<7, ORD, 3, 0>();
        ins_after_0_8 = ops::insert::<8, ORD, 3, 0>();
        ins_after_0_5 = ops::insert::<5, ANY, 3, 0>();
        ins_after_0_10 = ops::insert::<10, ORD, 3, 0>();
        ins_after_0_12 = ops::insert::<12, ORD, 3, 0>();
        ins_after_1_4 = ops::insert::<4, ANY, 3, 1>();
        ins_after_1_8 = ops::insert::<8, ORD, 3, 1>();
        ins_after_2_4 = ops::insert::<4, ANY, 3, 2>();
        ins_after_2_8 = ops::insert::<8, ORD, 3, 2>();
        ins_after_chain_24 = ops::insert::<24, CHAIN, 3, 0>();
        ins_after_fan_24 = ops::insert::<24, FAN, 3, 0>();
        ins_after_comb_24 = ops::insert::<24, COMB, 3, 0>();
        ins_after_heap_24 = ops::insert::<24, HEAP, 3, 0>();
        ins_after_chain_48 = ops::insert::<48, CHAIN, 3, 0>();
        ins_after_fan_48 = ops::insert::<48, FAN, 3, 0>();
        ins_after_comb_48 = ops::insert::<48, COMB, 3, 0>();
        ins_after_heap_48 = ops::insert::<48, HEAP, 3, 0>();
        eff_after_3 = seq::effects::<4, 3, ANY, 3, 3>();
        eff_after_4 = seq::effects::<5, 4, ANY, 3, 3>();
        eff_after_5 = seq::effects::<6, 5, ORD, 3, 3>();
        big02_moves_chain = big::moves::<300, CHAIN, 1>();
        big02_moves_fan = big::moves::<300, FAN, 1>();
        big02_moves_comb = big::moves::<300, COMB, 1>();
        big02_moves_heap = big::moves::<300, HEAP, 1>();
    }
    "P03" {
        ref_first_chain_24 = ops::refuse::<24, CHAIN, 0, 0>();
        ref_first_fan_24 = ops::refuse::<24, FAN, 0, 0>();
        ref_first_comb_24 = ops::refuse::<24, COMB, 0, 0>();
        ref_first_heap_24 = ops::refuse::<24, HEAP, 0, 0>();
        ref_first_0_3 = ops::refuse::<3, ANY, 0, 0>();
        ref_first_0_4 = ops::refuse::<4, ANY, 0, 0>();
        ref_first_0_7 = ops::refuse::<7, ORD, 0, 0>();
        ref_first_0_9 = ops::refuse::<9, ORD, 0, 0>();
        ref_first_1_4 = ops::refuse::<4, ANY, 0, 1>();
        ref_first_1_7 = ops::refuse::<7, ORD, 0, 1>();
        ref_first_0_5 = ops::refuse::<5, ANY, 0, 0>();
        ref_first_0_12 = ops::refuse::<12, ORD, 0, 0>();
        ref_last_chain_24 = ops::refuse::<24, CHAIN, 1, 0>();
        ref_last_fan_24 = ops::refuse::<24, FAN, 1, 0>();
        ref_last_comb_24 = ops::refuse::<24, COMB, 1, 0>();
        ref_last_heap_24 = ops::refuse::<24, HEAP, 1, 0>();
        ref_last_0_3 = ops::refuse::<3, ANY, 1, 0>();
        ref_last_0_4 = ops::refuse::<4, ANY, 1, 0>();
        ref_last_0_7 = ops::refuse::<7, ORD, 1, 0>();
        ref_last_0_9 = ops::refuse::<9, ORD, 1, 0>();
        ref_last_1_4 = ops::refuse::<4, ANY, 1, 1>();
        ref_last_1_7 = ops::refuse::<7, ORD, 1, 1>();
        ref_last_0_5 = ops::refuse::<5, ANY, 1, 0>();
        ref_last_0_12 = ops::refuse::<12, ORD, 1, 0>();
        ref_before_chain_24 = ops::refuse::<24, CHAIN, 2, 0>();
        ref_before_fan_24 = ops::refuse::<24, FAN, 2, 0>();
        ref_before_comb_24 = ops::refuse::<24, COMB, 2, 0>();
        ref_before_heap_24 = ops::refuse::<24, HEAP, 2, 0>();
        ref_before_0_3 = ops::refuse::<3, ANY, 2, 0>();
        ref_before_0_4 = ops::refuse::<4, ANY, 2, 0>();
        ref_before_0_7 = ops::refuse::<7, ORD, 2, 0>();
        ref_before_0_9 = ops::refuse::<9, ORD, 2, 0>();
        ref_before_1_4 = ops::refuse::<4, ANY, 2, 1>();
        ref_before_1_7 = ops::refuse::<7, ORD, 2, 1>();
        ref_before_0_5 = ops::refuse::<5, ANY, 2, 0>();
        ref_before_0_12 = ops::refuse::<12, ORD, 2, 0>();
        ref_after_chain_24 = ops::refuse::<24, CHAIN, 3, 0>();
        ref_after_fan_24 = ops::refuse::<24, FAN, 3, 0>();
        ref_after_comb_24 = ops::refuse::<24, COMB, 3, 0>();
        ref_after_heap_24 = ops::refuse::<24, HEAP, 3, 0>();
        ref_after_0_3 = ops::refuse::<3, ANY, 3, 0>();
        ref_after_0_4 = ops::refuse::<4, ANY, 3, 0>();
        ref_after_0_7 = ops::refuse::<7, ORD, 3, 0>();
        ref_after_0_9 = ops::refuse::<9, ORD, 3, 0>();
        ref_after_1_4 = ops::refuse::<4, ANY, 3, 1>();
        ref_after_1_7 = ops::refuse::<7, ORD, 3, 1>();
        ref_after_0_5 = ops::refuse::<5, ANY, 3, 0>();
        ref_after_0_12 = ops::refuse::<12, ORD, 3, 0>();
        big03_loops_chain = big::moves::<300, CHAIN, 0>();
        big03_loops_comb = big::moves::<300, COMB, 0>();
        big03_loops_heap = big::moves::<300, HEAP, 0>();
    }
    "P04" {
        new_first_0_4 = ops::create::<5, 4, ANY, 0, 0>();
        new_first_0_7 = ops::create::<8, 7, ORD, 0, 0>();
        new_first_0_5 = ops::create::<6, 5, ANY, 0, 0>();
        new_first_0_9 = ops::create::<10, 9, ORD, 0, 0>();
        new_first_0_11 = ops::create::<12, 11, ORD, 0, 0>();
        new_first_0_3 = ops::create::<4, 3, ANY, 0, 0>();
        new_first_chain_24 = ops::create::<25, 24, CHAIN, 0, 0>();
        new_first_fan_24 = ops::create::<25, 24, FAN, 0, 0>();
        new_first_comb_24 = ops::create::<25, 24, COMB, 0, 0>();
        new_first_heap_24 = ops::create::<25, 24, HEAP, 0, 0>();
        newthen_first_3 = ops::create_then::<4, 3, ANY, 0>();
        newthen_first_4 = ops::create_then::<5, 4, ANY, 0>();
        newthen_first_5 = ops::create_then::<6, 5, ORD, 0>();
        new_first_1_4 = ops::create::<5, 4, ANY, 0, 1>();
        new_first_1_7 = ops::create::<8, 7, ORD, 0, 1>();
        new_first_1_5 = ops::create::<6, 5, ANY, 0, 1>();
        new_first_1_9 = ops::create::<10, 9, ORD, 0, 1>();
        new_first_1_11 = ops::create::<12, 11, ORD, 0, 1>();
        new_first_1_3 = ops::create::<4, 3, ANY, 0, 1>();
        new_last_0_4 = ops::create::<5, 4, ANY, 1, 0>();
        new_last_0_7 = ops::create::<8, 7, ORD, 1, 0>();
        new_last_0_5 = ops::create::<6, 5, ANY, 1, 0>();
        new_last_0_9 = ops::create::<10, 9, ORD, 1, 0>();
        new_last_0_11 = ops::create::<12, 11, ORD, 1, 0>();
        new_last_0_3 = ops::create::<4, 3, ANY, 1, 0>();
        new_last_chain_24 = ops::create::<25, 24, CHAIN, 1, 0>();
        new_last_fan_24 = ops::create::<25, 24, FAN, 1, 0>();
        new_last_comb_24 = ops::create::<25, 24, COMB, 1, 0>();
        new_last_heap_24 = ops::create::<25, 24, HEAP, 1, 0>();
        newthen_last_3 = ops::create_then::<4, 3, ANY, 1>();
        newthen_last_4 = ops::create_then::<5, 4, ANY, 1>();
        newthen_last_5 = ops::create_then::<6, 5, ORD, 1>();
        new_last_1_4 = ops::create::<5, 4, ANY, 1, 1>();
        new_last_1_7 = ops::create::<8, 7, ORD, 1, 1>();
        new_last_1_5 = ops::create::<6, 5, ANY, 1, 1>();
        new_last_1_9 = ops::create::<10, 9, ORD, 1, 1>();
        new_last_1_11 = ops::create::<12, 11, ORD, 1, 1>();
        new_last_1_3 = ops::create::<4, 3, ANY, 1, 1>();
        new_before_0_4 = ops::create::<5, 4, ANY, 2, 0>();
        new_before_0_7 = ops::create::<8, 7, ORD, 2, 0>();
        new_before_0_5 = ops::create::<6, 5, ANY, 2, 0>();
        new_before_0_9 = ops::create::<10, 9, ORD, 2, 0>();
        new_before_0_11 = ops::create::<12, 11, ORD, 2, 0>();
        new_before_0_3 = ops::create::<4, 3, ANY, 2, 0>();
        new_before_chain_24 = ops::create::<25, 24, CHAIN, 2, 0>();
        new_before_fan_24 = ops::create::<25, 24, FAN, 2, 0>();
        new_before_comb_24 = ops::create::<25, 24, COMB, 2, 0>();
        new_before_heap_24 = ops::create::<25, 24, HEAP, 2, 0>();
        newthen_before_3 = ops::create_then::<4, 3, ANY, 2>();
        newthen_before_4 = ops::create_then::<5, 4, ANY, 2>();
        newthen_before_5 = ops::create_then::<6, 5, ORD, 2>();
        new_before_1_4 = ops::create::<5, 4, ANY, 2, 1>();
        new_before_1_7 = ops::create::<8, 7, ORD, 2, 1>();
        new_before_1_5 = ops::create::<6, 5, ANY, 2, 1>();
        new_before_1_9 = ops::create::<10, 9, ORD, 2, 1>();
        new_before_1_11 = ops::create::<12, 11, ORD, 2, 1>();
        new_before_1_3 = ops::create::<4, 3, ANY, 2, 1>();
        new_after_0_4 = ops::create::<5, 4, ANY, 3, 0>();
        new_after_0_7 = ops::create::<8, 7, ORD, 3, 0>();
        new_after_0_5 = ops::create::<6, 5, ANY, 3, 0>();
        new_after_0_9 = ops::create::<10, 9, ORD, 3, 0>();
        new_after_0_11 = ops::create::<12, 11, ORD, 3, 0>();
        new_after_0_3 = ops::create::<4, 3, ANY, 3, 0>();
        new_after_chain_24 = ops::create::<25, 24, CHAIN, 3, 0>();
        new_after_fan_24 = ops::create::<25, 24, FAN, 3, 0>();
        new_after_comb_24 = ops::create::<25, 24, COMB, 3, 0>();
        new_after_heap_24 = ops::create::<25, 24, HEAP, 3, 0>();
        newthen_after_3 = ops::create_then::<4, 3, ANY, 3>();
        newthen_after_4 = ops::create_then::<5, 4, ANY, 3>();
        newthen_after_5 = ops::create_then::<6, 5, ORD, 3>();
        new_after_1_4 = ops::create::<5, 4, ANY, 3, 1>();
        new_after_1_7 = ops::create::<8, 7, ORD, 3, 1>();
        new_after_1_5 = ops::create::<6, 5, ANY, 3, 1>();
        new_after_1_9 = ops::create::<10, 9, ORD, 3, 1>();
        new_after_1_11 = ops::create::<12, 11, ORD, 3, 1>();
        new_after_1_3 = ops::create::<4, 3, ANY, 3, 1>();
        new_root_0_4 = ops::create::<5, 4, ANY, 4, 0>();
        new_root_0_7 = ops::create::<8, 7, ORD, 4, 0>();
        new_root_0_5 = ops::create::<6, 5, ANY, 4, 0>();
        new_root_0_9 = ops::create::<10, 9, ORD, 4, 0>();
        new_root_0_11 = ops::create::<12, 11, ORD, 4, 0>();
        new_root_0_3 = ops::create::<4, 3, ANY, 4, 0>();
        new_root_chain_24 = ops::create::<25, 24, CHAIN, 4, 0>();
        new_root_fan_24 = ops::create::<25, 24, FAN, 4, 0>();
        new_root_comb_24 = ops::create::<25, 24, COMB, 4, 0>();
        new_root_heap_24 = ops::create::<25, 24, HEAP, 4, 0>();
        newthen_root_3 = ops::create_then::<4, 3, ANY, 4>();
        newthen_root_4 = ops::create_then::<5, 4, ANY, 4>();
        newthen_root_5 = ops::create_then::<6, 5, ORD, 4>();
        new_bad_before_4 = ops::create_refused::<5, 4, ANY, 2>();
        new_bad_before_3 = ops::create_refused::<4, 3, ANY, 2>();
        new_bad_after_4 = ops::create_refused::<5, 4, ANY, 3>();
        new_bad_after_3 = ops::create_refused::<4, 3, ANY, 3>();
    }
    "P05" {
        det_0_4 = ops::detach::<4, ANY, 0>();
        det_0_5 = ops::detach::<5, ANY, 0>();
        det_0_8 = ops::detach::<8, ORD, 0>();
        det_0_10 = ops::detach::<10, ORD, 0>();
        det_1_4 = ops::detach::<4, ANY, 1>();
        det_1_8 = ops::detach::<8, ORD, 1>();
        det_0_6 = ops::detach::<6, ANY, 0>();
        det_0_12 = ops::detach::<12, ORD, 0>();
        det_0_14 = ops::detach::<14, ORD, 0>();
        det_0_3 = ops::detach::<3, ANY, 0>();
        det_1_3 = ops::detach::<3, ANY, 1>();
        det_chain_32 = ops::detach::<32, CHAIN, 0>();
        det_fan_32 = ops::detach::<32, FAN, 0>();
        det_comb_32 = ops::detach::<32, COMB, 0>();
        det_heap_32 = ops::detach::<32, HEAP, 0>();
        big05_detach_chain = big::moves::<300, CHAIN, 2>();
        big05_detach_fan = big::moves::<300, FAN, 2>();
        big05_detach_comb = big::moves::<300, COMB, 2>();
        big05_detach_heap = big::moves::<300, HEAP, 2>();
        eff_detach_3 = seq::effects::<4, 3, ANY, 4, 3>();
        eff_detach_0_4 = seq::effects::<5, 4, ANY, 4, 0>();
        eff_detach_1_4 = seq::effects::<5, 4, ANY, 4, 1>();
        eff_detach_2_4 = seq::effects::<5, 4, ANY, 4, 2>();
        eff_detach_5 = seq::effects::<6, 5, ORD, 4, 3>();
    }
    "P06" {
        sin_0_4 = ops::detach_single::<4, ANY, 0>();
        sin_0_5 = ops::detach_single::<5, ANY, 0>();
        sin_0_7 = ops::detach_single::<7, ORD, 0>();
        sin_0_8 = ops::detach_single::<8, ORD, 0>();
        sin_1_4 = ops::detach_single::<4, ANY, 1>();
        sin_1_6 = ops::detach_single::<6, ORD, 1>();
        sin_0_6 = ops::detach_single::<6, ANY, 0>();
        sin_0_10 = ops::detach_single::<10, ORD, 0>();
        sin_0_12 = ops::detach_single::<12, ORD, 0>();
        sin_0_3 = ops::detach_single::<3, ANY, 0>();
        sin_1_3 = ops::detach_single::<3, ANY, 1>();
        sin_chain_24 = ops::detach_single::<24, CHAIN, 0>();
        sin_fan_24 = ops::detach_single::<24, FAN, 0>();
        sin_comb_24 = ops::detach_single::<24, COMB, 0>();
        sin_heap_24 = ops::detach_single::<24, HEAP, 0>();
        big06_single_chain = big::moves::<300, CHAIN, 3>();
        big06_single_fan = big::moves::<300, FAN, 3>();
        big06_single_comb = big::moves::<300, COMB, 3>();
        big06_single_heap = big::moves::<300, HEAP, 3>();
        sin_chain_48 = ops::detach_single::<48, CHAIN, 0>();
        sin_fan_48 = ops::detach_single::<48, FAN, 0>();
        sin_comb_48 = ops::detach_single::<48, COMB, 0>();
        sin_heap_48 = ops::detach_single::<48, HEAP, 0>();
        eff_single_3 = seq::effects::<4, 3, ANY, 5, 3>();
        eff_single_0_4 = seq::effects::<5, 4, ANY, 5, 0>();
        eff_single_1_4 = seq::effects::<5, 4, ANY, 5, 1>();
        eff_single_2_4 = seq::effects::<5, 4, ANY, 5, 2>();
        eff_single_5 = seq::effects::<6, 5, ORD, 5, 3>();
    }
    "P07" {
        rem_0_chain_16 = ops::remove::<16, CHAIN, 0>();
        rem_0_fan_16 = ops::remove::<16, FAN, 0>();
        rem_0_comb_16 = ops::remove::<16, COMB, 0>();
        rem_0_heap_16 = ops::remove::<16, HEAP, 0>();
        big07_remove_0_chain = big::remove::<300, CHAIN, 0>();
        big07_remove_0_fan = big::remove::<300, FAN, 0>();
        big07_remove_0_comb = big::remove::<300, COMB, 0>();
        big07_remove_0_heap = big::remove::<300, HEAP, 0>();
        rem_0_chain_24 = ops::remove::<24, CHAIN, 0>();
        rem_0_fan_24 = ops::remove::<24, FAN, 0>();
        rem_0_comb_24 = ops::remove::<24, COMB, 0>();
        rem_0_heap_24 = ops::remove::<24, HEAP, 0>();
        rem_0_4 = ops::remove::<4, ANY, 0>();
        rem_0_6 = ops::remove::<6, ORD, 0>();
        rem_0_5 = ops::remove::<5, ANY, 0>();
        rem_0_7 = ops::remove::<7, ORD, 0>();
        rem_0_8 = ops::remove::<8, ORD, 0>();
        rem_0_3 = ops::remove::<3, ANY, 0>();
        rem_1_chain_16 = ops::remove::<16, CHAIN, 1>();
        rem_1_fan_16 = ops::remove::<16, FAN, 1>();
        rem_1_comb_16 = ops::remove::<16, COMB, 1>();
        rem_1_heap_16 = ops::remove::<16, HEAP, 1>();
        big07_remove_1_chain = big::remove::<300, CHAIN, 1>();
        big07_remove_1_fan = big::remove::<300, FAN, 1>();
        big07_remove_1_comb = big::remove::<300, COMB, 1>();
        big07_remove_1_heap = big::remove::<300, HEAP, 1>();
        rem_1_chain_24 = ops::remove::<24, CHAIN, 1>();
        rem_1_fan_24 = ops::remove::<24, FAN, 1>();
        rem_1_comb_24 = ops::remove::<24, COMB, 1>();
        rem_1_heap_24 = ops::remove::<24, HEAP, 1>();
        rem_1_4 = ops::remove::<4, ANY, 1>();
        rem_1_6 = ops::remove::<6, ORD, 1>();
        rem_1_5 = ops::remove::<5, ANY, 1>();
        rem_1_7 = ops::remove::<7, ORD, 1>();
        rem_1_8 = ops::remove::<8, ORD, 1>();
        rem_1_3 = ops::remove::<3, ANY, 1>();
        rem_2_chain_16 = ops::remove::<16, CHAIN, 2>();
        rem_2_fan_16 = ops::remove::<16, FAN, 2>();
        rem_2_comb_16 = ops::remove::<16, COMB, 2>();
        rem_2_heap_16 = ops::remove::<16, HEAP, 2>();
        big07_remove_2_chain = big::remove::<300, CHAIN, 2>();
        big07_remove_2_fan = big::remove::<300, FAN, 2>();
        big07_remove_2_comb = big::remove::<300, COMB, 2>();
        big07_remove_2_heap = big::remove::<300, HEAP, 2>();
        rem_2_chain_24 = ops::remove::<24, CHAIN, 2>();
        rem_2_fan_24 = ops::remove::<24, FAN, 2>();
        rem_2_comb_24 = ops::remove::<24, COMB, 2>();
        rem_2_heap_24 = ops::remove::<24, HEAP, 2>();
        rem_2_4 = ops::remove::<4, ANY, 2>();
        rem_2_6 = ops::remove::<6, ORD, 2>();
        rem_2_5 = ops::remove::<5, ANY, 2>();
        rem_2_7 = ops::remove::<7, ORD, 2>();
        rem_2_8 = ops::remove::<8, ORD, 2>();
        rem_2_3 = ops::remove::<3, ANY, 2>();
        rem_3_4 = ops::remove::<4, ANY, 3>();
        rem_3_6 = ops::remove::<6, ORD, 3>();
        rem_3_5 = ops::remove::<5, ANY, 3>();
        rem_3_7 = ops::remove::<7, ORD, 3>();
        rem_3_8 = ops::remove::<8, ORD, 3>();
        rem_3_3 = ops::remove::<3, ANY, 3>();
        rem_4_4 = ops::remove::<4, ANY, 4>();
        rem_4_6 = ops::remove::<6, ORD, 4>();
        rem_4_5 = ops::remove::<5, ANY, 4>();
        rem_4_7 = ops::remove::<7, ORD, 4>();
        rem_4_8 = ops::remove::<8, ORD, 4>();
        rem_4_3 = ops::remove::<3, ANY, 4>();
        rem_5_4 = ops::remove::<4, ANY, 5>();
        rem_5_6 = ops::remove::<6, ORD, 5>();
        rem_5_5 = ops::remove::<5, ANY, 5>();
        rem_5_7 = ops::remove::<7, ORD, 5>();
        rem_5_8 = ops::remove::<8, ORD, 5>();
        rem_5_3 = ops::remove::<3, ANY, 5>();
        drop_0_3 = ops::remove_drops::<3, 0>();
        drop_0_4 = ops::remove_drops::<4, 0>();
        drop_1_3 = ops::remove_drops::<3, 1>();
        drop_1_4 = ops::remove_drops::<4, 1>();
        drop_2_3 = ops::remove_drops::<3, 2>();
        drop_2_4 = ops::remove_drops::<4, 2>();
        eff_remove_3 = seq::effects::<4, 3, ANY, 6, 3>();
        eff_remove_0_4 = seq::effects::<5, 4, ANY, 6, 0>();
        eff_remove_1_4 = seq::effects::<5, 4, ANY, 6, 1>();
        eff_remove_2_4 = seq::effects::<5, 4, ANY, 6, 2>();
        eff_remove_5 = seq::effects::<6, 5, ORD, 6, 3>();
    }
    "P09" {
        pan_0_3 = ops::remove_panic::<3, ANY, 0>();
        pan_0_4 = ops::remove_panic::<4, ANY, 0>();
        pan_0_5 = ops::remove_panic::<5, ORD, 0>();
        pan_1_4 = ops::remove_panic::<4, ANY, 1>();
        then_3 = ops::remove_panic_then::<3, ANY>();
        then_4 = ops::remove_panic_then::<4, ANY>();
        pan_0_6 = ops::remove_panic::<6, ORD, 0>();
        pan_0_7 = ops::remove_panic::<7, ORD, 0>();
        then_5 = ops::remove_panic_then::<5, ORD>();
        pan_chain_12 = ops::remove_panic::<12, CHAIN, 0>();
        pan_fan_12 = ops::remove_panic::<12, FAN, 0>();
        pan_comb_12 = ops::remove_panic::<12, COMB, 0>();
        pan_heap_12 = ops::remove_panic::<12, HEAP, 0>();
        big09_panic_chain = big::remove::<300, CHAIN, 3>();
        big09_panic_fan = big::remove::<300, FAN, 3>();
        big09_panic_comb = big::remove::<300, COMB, 3>();
        big09_panic_heap = big::remove::<300, HEAP, 3>();
    }
    "P10" {
        reuse_0_3 = ids::reuse::<3, 3, 0>();
        reuse_0_4 = ids::reuse::<4, 4, 0>();
        reuse_0_5 = ids::reuse::<5, 5, 0>();
        reuse_1_3 = ids::reuse::<3, 3, 1>();
        reuse_1_4 = ids::reuse::<4, 4, 1>();
        reuse_1_5 = ids::reuse::<5, 5, 1>();
        reuse_2_3 = ids::reuse::<3, 3, 2>();
        reuse_2_4 = ids::reuse::<4, 4, 2>();
        reuse_2_5 = ids::reuse::<5, 5, 2>();
        reuse_3_3 = ids::reuse::<3, 3, 3>();
        reuse_3_4 = ids::reuse::<4, 4, 3>();
        reuse_3_5 = ids::reuse::<5, 5, 3>();
        over_0 = ids::overflow::<0>();
        over_1 = ids::overflow::<1>();
        over_2 = ids::overflow::<2>();
        many_0_chain_20 = ids::reuse_many::<20, 20, CHAIN, 0>();
        many_0_fan_20 = ids::reuse_many::<20, 20, FAN, 0>();
        many_0_comb_20 = ids::reuse_many::<20, 20, COMB, 0>();
        many_0_heap_20 = ids::reuse_many::<20, 20, HEAP, 0>();
        big10_remove_0_fan = big::remove::<40, FAN, 0>();
        big10_remove_0_comb = big::remove::<40, COMB, 0>();
        many_0_chain_40 = ids::reuse_many::<40, 40, CHAIN, 0>();
        many_0_fan_40 = ids::reuse_many::<40, 40, FAN, 0>();
        many_0_comb_40 = ids::reuse_many::<40, 40, COMB, 0>();
        many_0_heap_40 = ids::reuse_many::<40, 40, HEAP, 0>();
        many_1_chain_20 = ids::reuse_many::<20, 20, CHAIN, 1>();
        many_1_fan_20 = ids::reuse_many::<20, 20, FAN, 1>();
        many_1_comb_20 = ids::reuse_many::<20, 20, COMB, 1>();
        many_1_heap_20 = ids::reuse_many::<20, 20, HEAP, 1>();
        big10_remove_1_fan = big::remove::<40, FAN, 1>();
        big10_remove_1_comb = big::remove::<40, COMB, 1>();
        many_1_chain_40 = ids::reuse_many::<40, 40, CHAIN, 1>();
        many_1_fan_40 = ids::reuse_many::<40, 40, FAN, 1>();
        many_1_comb_40 = ids::reuse_many::<40, 40, COMB, 1>();
        many_1_heap_40 = ids::reuse_many::<40, 40, HEAP, 1>();
        many_2_chain_20 = ids::reuse_many::<20, 20, CHAIN, 2>();
        many_2_fan_20 = ids::reuse_many::<20, 20, FAN, 2>();
        many_2_comb_20 = ids::reuse_many::<20, 20, COMB, 2>();
        many_2_heap_20 = ids::reuse_many::<20, 20, HEAP, 2>();
        big10_remove_2_fan = big::remove::<40, FAN, 2>();
        big10_remove_2_comb = big::remove::<40, COMB, 2>();
        many_2_chain_40 = ids::reuse_many::<40, 40, CHAIN, 2>();
        many_2_fan_40 = ids::reuse_many::<40, 40, FAN, 2>();
        many_2_comb_40 = ids::reuse_many::<40, 40, COMB, 2>();
        many_2_heap_40 = ids::reuse_many::<40, 40, HEAP, 2>();
    }
    "P11" {
        id_u8 = ids::id_u8();
        id_u16 = ids::id_u16();
        id_u32 = ids::id_u32();
        id_u64 = ids::id_u64();
        id_usize = ids::id_usize();
        dist_u8 = ids::distinct_u8();
        dist_u16 = ids::distinct_u16();
        dist_u32 = ids::distinct_u32();
        dist_u64 = ids::distinct_u64();
        dist_usize = ids::distinct_usize();
        dist_custom = ids::distinct_custom();
        dist_named = ids::distinct_named();
    }
    "P12" {
        dead_0_4 = dead::dead::<4, ANY, 0>();
        dead_0_5 = dead::dead::<5, ANY, 0>();
        dead_0_3 = dead::dead::<3, ANY, 0>();
        dead_0_comb_20 = dead::dead::<20, COMB, 0>();
        dead_1_4 = dead::dead::<4, ANY, 1>();
        dead_1_5 = dead::dead::<5, ANY, 1>();
        dead_1_3 = dead::dead::<3, ANY, 1>();
        dead_2_4 = dead::dead::<4, ANY, 2>();
        dead_2_5 = dead::dead::<5, ANY, 2>();
        dead_2_3 = dead::dead::<3, ANY, 2>();
        dead_3_4 = dead::dead::<4, ANY, 3>();
        dead_3_5 = dead::dead::<5, ANY, 3>();
        dead_3_3 = dead::dead::<3, ANY, 3>();
        dead_4_4 = dead::dead::<4, ANY, 4>();
        dead_4_5 = dead::dead::<5, ANY, 4>();
        dead_4_3 = dead::dead::<3, ANY, 4>();
        dead_4_comb_20 = dead::dead::<20, COMB, 4>();
        dead_5_4 = dead::dead::<4, ANY, 5>();
        dead_5_5 = dead::dead::<5, ANY, 5>();
        dead_5_3 = dead::dead::<3, ANY, 5>();
        dead_6_4 = dead::dead::<4, ANY, 6>();
        dead_6_5 = dead::dead::<5, ANY, 6>();
        dead_6_3 = dead::dead::<3, ANY, 6>();
        dead_7_4 = dead::dead::<4, ANY, 7>();
        dead_7_5 = dead::dead::<5, ANY, 7>();
        dead_7_3 = dead::dead::<3, ANY, 7>();
        dead_8_4 = dead::dead::<4, ANY, 8>();
        dead_8_5 = dead::dead::<5, ANY, 8>();
        dead_8_3 = dead::dead::<3, ANY, 8>();
        dead_9_4 = dead::dead::<4, ANY, 9>();
        dead_9_5 = dead::dead::<5, ANY, 9>();
        dead_9_3 = dead::dead::<3, ANY, 9>();
        dead_10_4 = dead::dead::<4, ANY, 10>();
        dead_10_5 = dead::dead::<5, ANY, 10>();
        dead_10_3 = dead::dead::<3, ANY, 10>();
        dead_11_4 = dead::dead::<4, ANY, 11>();
        dead_11_5 = dead::dead::<5, ANY, 11>();
        dead_11_3 = dead::dead::<3, ANY, 11>();
        dead_12_4 = dead::dead::<4, ANY, 12>();
        dead_12_5 = dead::dead::<5, ANY, 12>();
        dead_12_3 = dead::dead::<3, ANY, 12>();
        dead_12_comb_20 = dead::dead::<20, COMB, 12>();
        dead_13_4 = dead::dead::<4, ANY, 13>();
        dead_13_5 = dead::dead::<5, ANY, 13>();
        dead_13_3 = dead::dead::<3, ANY, 13>();
        dead_13_comb_20 = dead::dead::<20, COMB, 13>();
        dead_14_4 = dead::dead::<4, ANY, 14>();
        dead_14_5 = dead::dead::<5, ANY, 14>();
        dead_14_3 = dead::dead::<3, ANY, 14>();
        dead_14_comb_20 = dead::dead::<20, COMB, 14>();
        dead_15_4 = dead::dead::<4, ANY, 15>();
        dead_15_5 = dead::dead::<5, ANY, 15>();
        dead_15_3 = dead::dead::<3, ANY, 15>();
        dead_16_4 = dead::dead::<4, ANY, 16>();
        dead_16_5 = dead::dead::<5, ANY, 16>();
        dead_16_3 = dead::dead::<3, ANY, 16>();
        dead_17_4 = dead::dead::<4, ANY, 17>();
        dead_17_5 = dead::dead::<5, ANY, 17>();
        dead_17_3 = dead::dead::<3, ANY, 17>();
        dead_18_4 = dead::dead::<4, ANY, 18>();
        dead_18_5 = dead::dead::<5, ANY, 18>();
        dead_18_3 = dead::dead::<3, ANY, 18>();
        dead_19_4 = dead::dead::<4, ANY, 19>();
        dead_19_5 = dead::dead::<5, ANY, 19>();
        dead_19_3 = dead::dead::<3, ANY, 19>();
        dead_20_4 = dead::dead::<4, ANY, 20>();
        dead_20_5 = dead::dead::<5, ANY, 20>();
        dead_20_3 = dead::dead::<3, ANY, 20>();
        dead_21_4 = dead::dead::<4, ANY, 21>();
        dead_21_5 = dead::dead::<5, ANY, 21>();
        dead_21_3 = dead::dead::<3, ANY, 21>();
        dead_22_4 = dead::dead::<4, ANY, 22>();
        dead_22_5 = dead::dead::<5, ANY, 22>();
        dead_22_3 = dead::dead::<3, ANY, 22>();
        dead_23_4 = dead::dead::<4, ANY, 23>();
        dead_23_5 = dead::dead::<5, ANY, 23>();
        dead_23_3 = dead::dead::<3, ANY, 23>();
        dead_24_4 = dead::dead::<4, ANY, 24>();
        dead_24_5 = dead::dead::<5, ANY, 24>();
        dead_24_3 = dead::dead::<3, ANY, 24>();
        dead_25_4 = dead::dead::<4, ANY, 25>();
        dead_25_5 = dead::dead::<5, ANY, 25>();
        dead_25_3 = dead::dead::<3, ANY, 25>();
        dead_26_4 = dead::dead::<4, ANY, 26>();
        dead_26_5 = dead::dead::<5, ANY, 26>();
        dead_26_3 = dead::dead::<3, ANY, 26>();
        dead_27_4 = dead::dead::<4, ANY, 27>();
        dead_27_5 = dead::dead::<5, ANY, 27>();
        dead_27_3 = dead::dead::<3, ANY, 27>();
        dead_28_4 = dead::dead::<4, ANY, 28>();
        dead_28_5 = dead::dead::<5, ANY, 28>();
        dead_28_3 = dead::dead::<3, ANY, 28>();
        dead_28_comb_20 = dead::dead::<20, COMB, 28>();
        dead_29_4 = dead::dead::<4, ANY, 29>();
        dead_29_5 = dead::dead::<5, ANY, 29>();
        dead_29_3 = dead::dead::<3, ANY, 29>();
        dead_29_comb_20 = dead::dead::<20, COMB, 29>();
        dead_30_4 = dead::dead::<4, ANY, 30>();
        dead_30_5 = dead::dead::<5, ANY, 30>();
        dead_30_3 = dead::dead::<3, ANY, 30>();
        dead_30_comb_20 = dead::dead::<20, COMB, 30>();
    }
    "P13" {
        data_0_4 = ops::data::<4, ANY, 0>();
        data_0_8 = ops::data::<8, ORD, 0>();
        data_0_3 = ops::data::<3, ANY, 0>();
        data_0_5 = ops::data::<5, ANY, 0>();
        data_0_12 = ops::data::<12, ORD, 0>();
        data_1_4 = ops::data::<4, ANY, 1>();
        data_1_8 = ops::data::<8, ORD, 1>();
        data_1_3 = ops::data::<3, ANY, 1>();
        data_1_5 = ops::data::<5, ANY, 1>();
        data_1_12 = ops::data::<12, ORD, 1>();
        data_2_4 = ops::data::<4, ANY, 2>();
        data_2_8 = ops::data::<8, ORD, 2>();
        data_2_3 = ops::data::<3, ANY, 2>();
        data_2_5 = ops::data::<5, ANY, 2>();
        data_2_12 = ops::data::<12, ORD, 2>();
        data_comb_32 = ops::data::<32, COMB, 0>();
        data_fan_32 = ops::data::<32, FAN, 0>();
        big13_data_chain = big::read::<300, CHAIN>();
        big13_data_comb = big::read::<300, COMB>();
    }
    "P14" {
        dft_0_3 = iter::dft::<3, ANY, 0>();
        dft_0_4 = iter::dft::<4, ANY, 0>();
        dft_0_5 = iter::dft::<5, ORD, 0>();
        dft_0_6 = iter::dft::<6, ORD, 0>();
        dft_1_4 = iter::dft::<4, ANY, 1>();
        dft_0_5x = iter::dft::<5, ANY, 0>();
        dft_0_7 = iter::dft::<7, ORD, 0>();
        dft_0_8 = iter::dft::<8, ORD, 0>();
        bulk_dft_0_4 = bulk::dft::<4, ANY, 0>();
        bulk_dft_1_4 = bulk::dft::<4, ANY, 1>();
        bulk_dft_2_4 = bulk::dft::<4, ANY, 2>();
        bulk_dft_3_4 = bulk::dft::<4, ANY, 3>();
        bulk_dft_4_4 = bulk::dft::<4, ANY, 4>();
        bulk_dft_5_4 = bulk::dft::<4, ANY, 5>();
        bulk_dft_6_4 = bulk::dft::<4, ANY, 6>();
        bulk_dft_7_4 = bulk::dft::<4, ANY, 7>();
        bulk_dft_8_4 = bulk::dft::<4, ANY, 8>();
        bulk_dft_9_4 = bulk::dft::<4, ANY, 9>();
        bulk_dft_10_4 = bulk::dft::<4, ANY, 10>();
        bulk_dft_11_4 = bulk::dft::<4, ANY, 11>();
        bulk_dft_0_5 = bulk::dft::<5, ANY, 0>();
        bulk_dft_1_5 = bulk::dft::<5, ANY, 1>();
        bulk_dft_2_5 = bulk::dft::<5, ANY, 2>();
        bulk_dft_3_5 = bulk::dft::<5, ANY, 3>();
        bulk_dft_4_5 = bulk::dft::<5, ANY, 4>();
        bulk_dft_5_5 = bulk::dft::<5, ANY, 5>();
        bulk_dft_6_5 = bulk::dft::<5, ANY, 6>();
        bulk_dft_7_5 = bulk::dft::<5, ANY, 7>();
        bulk_dft_8_5 = bulk::dft::<5, ANY, 8>();
        bulk_dft_9_5 = bulk::dft::<5, ANY, 9>();
        bulk_dft_10_5 = bulk::dft::<5, ANY, 10>();
        bulk_dft_11_5 = bulk::dft::<5, ANY, 11>();
        dft_chain_12 = iter::dft::<12, CHAIN, 0>();
        dft_fan_12 = iter::dft::<12, FAN, 0>();
        dft_comb_12 = iter::dft::<12, COMB, 0>();
        dft_heap_12 = iter::dft::<12, HEAP, 0>();
        big14_dft_chain = big::dft::<300, CHAIN>();
        big14_dft_fan = big::dft::<300, FAN>();
        big14_dft_comb = big::dft::<300, COMB>();
        big14_dft_heap = big::dft::<300, HEAP>();
        dft_chain_20 = iter::dft::<20, CHAIN, 0>();
        dft_fan_20 = iter::dft::<20, FAN, 0>();
        dft_comb_20 = iter::dft::<20, COMB, 0>();
        dft_heap_20 = iter::dft::<20, HEAP, 0>();
    }
    "P15" {
        sha_0_3 = iter::shallow::<3, ANY, 0>();
        sha_0_4 = iter::shallow::<4, ANY, 0>();
        sha_0_5 = iter::shallow::<5, ORD, 0>();
        sha_1_3 = iter::shallow::<3, ANY, 1>();
        sha_0_6 = iter::shallow::<6, ORD, 0>();
        sha_0_7 = iter::shallow::<7, ORD, 0>();
        bulk_sha_0_4 = bulk::shallow::<4, ANY, 0>();
        bulk_sha_1_4 = bulk::shallow::<4, ANY, 1>();
        bulk_sha_2_4 = bulk::shallow::<4, ANY, 2>();
        bulk_sha_3_4 = bulk::shallow::<4, ANY, 3>();
        bulk_sha_4_4 = bulk::shallow::<4, ANY, 4>();
        bulk_sha_5_4 = bulk::shallow::<4, ANY, 5>();
        bulk_sha_6_4 = bulk::shallow::<4, ANY, 6>();
        bulk_sha_7_4 = bulk::shallow::<4, ANY, 7>();
        bulk_sha_8_4 = bulk::shallow::<4, ANY, 8>();
        bulk_sha_9_4 = bulk::shallow::<4, ANY, 9>();
        bulk_sha_10_4 = bulk::shallow::<4, ANY, 10>();
        bulk_sha_11_4 = bulk::shallow::<4, ANY, 11>();
        bulk_sha_0_5 = bulk::shallow::<5, ANY, 0>();
        bulk_sha_1_5 = bulk::shallow::<5, ANY, 1>();
        bulk_sha_2_5 = bulk::shallow::<5, ANY, 2>();
        bulk_sha_3_5 = bulk::shallow::<5, ANY, 3>();
        bulk_sha_4_5 = bulk::shallow::<5, ANY, 4>();
        bulk_sha_5_5 = bulk::shallow::<5, ANY, 5>();
        bulk_sha_6_5 = bulk::shallow::<5, ANY, 6>();
        bulk_sha_7_5 = bulk::shallow::<5, ANY, 7>();
        bulk_sha_8_5 = bulk::shallow::<5, ANY, 8>();
        bulk_sha_9_5 = bulk::shallow::<5, ANY, 9>();
        bulk_sha_10_5 = bulk::shallow::<5, ANY, 10>();
        bulk_sha_11_5 = bulk::shallow::<5, ANY, 11>();
        sha_chain_10 = iter::shallow::<10, CHAIN, 0>();
        sha_fan_10 = iter::shallow::<10, FAN, 0>();
        sha_comb_10 = iter::shallow::<10, COMB, 0>();
        sha_heap_10 = iter::shallow::<10, HEAP, 0>();
        big15_shallow_chain = big::shallow::<300, CHAIN>();
        big15_shallow_fan = big::shallow::<300, FAN>();
        big15_shallow_comb = big::shallow::<300, COMB>();
        big15_shallow_heap = big::shallow::<300, HEAP>();
        sha_chain_13 = iter::shallow::<13, CHAIN, 0>();
        sha_fan_13 = iter::shallow::<13, FAN, 0>();
        sha_comb_13 = iter::shallow::<13, COMB, 0>();
        sha_heap_13 = iter::shallow::<13, HEAP, 0>();
    }
    "P16" {
        bft_0_3 = iter::bft::<3, ANY, 0>();
        bft_0_4 = iter::bft::<4, ANY, 0>();
        bft_0_5 = iter::bft::<5, ORD, 0>();
        bft_0_6 = iter::bft::<6, ORD, 0>();
        bft_0_7 = iter::bft::<7, ORD, 0>();
        bft_1_3 = iter::bft::<3, ANY, 1>();
        bft_1_4 = iter::bft::<4, ANY, 1>();
        bft_1_5 = iter::bft::<5, ORD, 1>();
        bft_1_6 = iter::bft::<6, ORD, 1>();
        bft_1_7 = iter::bft::<7, ORD, 1>();
        bft_2_3 = iter::bft::<3, ANY, 2>();
        bft_2_4 = iter::bft::<4, ANY, 2>();
        bft_2_5 = iter::bft::<5, ORD, 2>();
        bft_2_6 = iter::bft::<6, ORD, 2>();
        bft_2_7 = iter::bft::<7, ORD, 2>();
        bft_3_3 = iter::bft::<3, ANY, 3>();
        bft_3_4 = iter::bft::<4, ANY, 3>();
        bft_3_5 = iter::bft::<5, ORD, 3>();
        bft_3_6 = iter::bft::<6, ORD, 3>();
        bft_3_7 = iter::bft::<7, ORD, 3>();
        bulk_bft_0_0_4 = bulk::bft::<4, ANY, 0, 0>();
        bulk_bft_0_1_4 = bulk::bft::<4, ANY, 0, 1>();
        bulk_bft_0_2_4 = bulk::bft::<4, ANY, 0, 2>();
        bulk_bft_0_3_4 = bulk::bft::<4, ANY, 0, 3>();
        bulk_bft_0_4_4 = bulk::bft::<4, ANY, 0, 4>();
        bulk_bft_0_5_4 = bulk::bft::<4, ANY, 0, 5>();
        bulk_bft_0_6_4 = bulk::bft::<4, ANY, 0, 6>();
        bulk_bft_0_7_4 = bulk::bft::<4, ANY, 0, 7>();
        bulk_bft_0_0_5 = bulk::bft::<5, ANY, 0, 0>();
        bulk_bft_0_1_5 = bulk::bft::<5, ANY, 0, 1>();
        bulk_bft_0_2_5 = bulk::bft::<5, ANY, 0, 2>();
        bulk_bft_0_3_5 = bulk::bft::<5, ANY, 0, 3>();
        bulk_bft_0_4_5 = bulk::bft::<5, ANY, 0, 4>();
        bulk_bft_0_5_5 = bulk::bft::<5, ANY, 0, 5>();
        bulk_bft_0_6_5 = bulk::bft::<5, ANY, 0, 6>();
        bulk_bft_0_7_5 = bulk::bft::<5, ANY, 0, 7>();
        bft_0_chain_12 = iter::bft::<12, CHAIN, 0>();
        bft_0_fan_12 = iter::bft::<12, FAN, 0>();
        bft_0_comb_12 = iter::bft::<12, COMB, 0>();
        bft_0_heap_12 = iter::bft::<12, HEAP, 0>();
        big16_bft_0_chain = big::bft::<300, CHAIN, 0>();
        big16_bft_0_fan = big::bft::<300, FAN, 0>();
        big16_bft_0_comb = big::bft::<300, COMB, 0>();
        big16_bft_0_heap = big::bft::<300, HEAP, 0>();
        bft_0_chain_20 = iter::bft::<20, CHAIN, 0>();
        bft_0_fan_20 = iter::bft::<20, FAN, 0>();
        bft_0_comb_20 = iter::bft::<20, COMB, 0>();
        bft_0_heap_20 = iter::bft::<20, HEAP, 0>();
        bulk_bft_1_0_4 = bulk::bft::<4, ANY, 1, 0>();
        bulk_bft_1_1_4 = bulk::bft::<4, ANY, 1, 1>();
        bulk_bft_1_2_4 = bulk::bft::<4, ANY, 1, 2>();
        bulk_bft_1_3_4 = bulk::bft::<4, ANY, 1, 3>();
        bulk_bft_1_4_4 = bulk::bft::<4, ANY, 1, 4>();
        bulk_bft_1_5_4 = bulk::bft::<4, ANY, 1, 5>();
        bulk_bft_1_6_4 = bulk::bft::<4, ANY, 1, 6>();
        bulk_bft_1_0_5 = bulk::bft::<5, ANY, 1, 0>();
        bulk_bft_1_1_5 = bulk::bft::<5, ANY, 1, 1>();
        bulk_bft_1_2_5 = bulk::bft::<5, ANY, 1, 2>();
        bulk_bft_1_3_5 = bulk::bft::<5, ANY, 1, 3>();
        bulk_bft_1_4_5 = bulk::bft::<5, ANY, 1, 4>();
        bulk_bft_1_5_5 = bulk::bft::<5, ANY, 1, 5>();
        bulk_bft_1_6_5 = bulk::bft::<5, ANY, 1, 6>();
        bft_1_chain_12 = iter::bft::<12, CHAIN, 1>();
        bft_1_fan_12 = iter::bft::<12, FAN, 1>();
        bft_1_comb_12 = iter::bft::<12, COMB, 1>();
        bft_1_heap_12 = iter::bft::<12, HEAP, 1>();
        big16_bft_1_chain = big::bft::<300, CHAIN, 1>();
        big16_bft_1_fan = big::bft::<300, FAN, 1>();
        big16_bft_1_comb = big::bft::<300, COMB, 1>();
        big16_bft_1_heap = big::bft::<300, HEAP, 1>();
        bft_1_chain_20 = iter::bft::<20, CHAIN, 1>();
        bft_1_fan_20 = iter::bft::<20, FAN, 1>();
        bft_1_comb_20 = iter::bft::<20, COMB, 1>();
        bft_1_heap_20 = iter::bft::<20, HEAP, 1>();
    }
    "P17" {
        sib_0_0_4 = iter::siblings::<4, ANY, 0, 0>();
        sib_0_0_7 = iter::siblings::<7, ORD, 0, 0>();
        sib_0_0_5 = iter::siblings::<5, ANY, 0, 0>();
        sib_0_0_9 = iter::siblings::<9, ORD, 0, 0>();
        sib_0_0_3 = iter::siblings::<3, ANY, 0, 0>();
        sib_0_1_4 = iter::siblings::<4, ANY, 0, 1>();
        sib_0_1_3 = iter::siblings::<3, ANY, 0, 1>();
        bulk_sib_0_0_4 = bulk::siblings::<4, ANY, 0, 0>();
        bulk_sib_0_1_4 = bulk::siblings::<4, ANY, 0, 1>();
        bulk_sib_0_2_4 = bulk::siblings::<4, ANY, 0, 2>();
        bulk_sib_0_3_4 = bulk::siblings::<4, ANY, 0, 3>();
        bulk_sib_0_4_4 = bulk::siblings::<4, ANY, 0, 4>();
        bulk_sib_0_5_4 = bulk::siblings::<4, ANY, 0, 5>();
        bulk_sib_0_6_4 = bulk::siblings::<4, ANY, 0, 6>();
        bulk_sib_0_7_4 = bulk::siblings::<4, ANY, 0, 7>();
        bulk_sib_0_8_4 = bulk::siblings::<4, ANY, 0, 8>();
        bulk_sib_0_9_4 = bulk::siblings::<4, ANY, 0, 9>();
        bulk_sib_0_10_4 = bulk::siblings::<4, ANY, 0, 10>();
        bulk_sib_0_11_4 = bulk::siblings::<4, ANY, 0, 11>();
        sib_0_fan_20 = iter::siblings::<20, FAN, 0, 0>();
        sib_0_comb_20 = iter::siblings::<20, COMB, 0, 0>();
        big17_siblings_0 = big::siblings::<300, 0>();
        sib_1_0_4 = iter::siblings::<4, ANY, 1, 0>();
        sib_1_0_7 = iter::siblings::<7, ORD, 1, 0>();
        sib_1_0_5 = iter::siblings::<5, ANY, 1, 0>();
        sib_1_0_9 = iter::siblings::<9, ORD, 1, 0>();
        sib_1_0_3 = iter::siblings::<3, ANY, 1, 0>();
        sib_1_1_4 = iter::siblings::<4, ANY, 1, 1>();
        sib_1_1_3 = iter::siblings::<3, ANY, 1, 1>();
        bulk_sib_1_0_4 = bulk::siblings::<4, ANY, 1, 0>();
        bulk_sib_1_1_4 = bulk::siblings::<4, ANY, 1, 1>();
        bulk_sib_1_2_4 = bulk::siblings::<4, ANY, 1, 2>();
        bulk_sib_1_3_4 = bulk::siblings::<4, ANY, 1, 3>();
        bulk_sib_1_4_4 = bulk::siblings::<4, ANY, 1, 4>();
        bulk_sib_1_5_4 = bulk::siblings::<4, ANY, 1, 5>();
        bulk_sib_1_6_4 = bulk::siblings::<4, ANY, 1, 6>();
        bulk_sib_1_7_4 = bulk::siblings::<4, ANY, 1, 7>();
        bulk_sib_1_8_4 = bulk::siblings::<4, ANY, 1, 8>();
        bulk_sib_1_9_4 = bulk::siblings::<4, ANY, 1, 9>();
        bulk_sib_1_10_4 = bulk::siblings::<4, ANY, 1, 10>();
        bulk_sib_1_11_4 = bulk::siblings::<4, ANY, 1, 11>();
        sib_1_fan_20 = iter::siblings::<20, FAN, 1, 0>();
        sib_1_comb_20 = iter::siblings::<20, COMB, 1, 0>();
        big17_siblings_1 = big::siblings::<300, 1>();
        sib_2_0_4 = iter::siblings::<4, ANY, 2, 0>();
        sib_2_0_7 = iter::siblings::<7, ORD, 2, 0>();
        sib_2_0_5 = iter::siblings::<5, ANY, 2, 0>();
        sib_2_0_9 = iter::siblings::<9, ORD, 2, 0>();
        sib_2_0_3 = iter::siblings::<3, ANY, 2, 0>();
        sib_2_1_4 = iter::siblings::<4, ANY, 2, 1>();
        sib_2_1_3 = iter::siblings::<3, ANY, 2, 1>();
        bulk_sib_2_0_4 = bulk::siblings::<4, ANY, 2, 0>();
        bulk_sib_2_1_4 = bulk::siblings::<4, ANY, 2, 1>();
        bulk_sib_2_2_4 = bulk::siblings::<4, ANY, 2, 2>();
        bulk_sib_2_3_4 = bulk::siblings::<4, ANY, 2, 3>();
        bulk_sib_2_4_4 = bulk::siblings::<4, ANY, 2, 4>();
        bulk_sib_2_5_4 = bulk::siblings::<4, ANY, 2, 5>();
        bulk_sib_2_6_4 = bulk::siblings::<4, ANY, 2, 6>();
        bulk_sib_2_7_4 = bulk::siblings::<4, ANY, 2, 7>();
        bulk_sib_2_8_4 = bulk::siblings::<4, ANY, 2, 8>();
        bulk_sib_2_9_4 = bulk::siblings::<4, ANY, 2, 9>();
        bulk_sib_2_10_4 = bulk::siblings::<4, ANY, 2, 10>();
        bulk_sib_2_11_4 = bulk::siblings::<4, ANY, 2, 11>();
        sib_2_fan_20 = iter::siblings::<20, FAN, 2, 0>();
        sib_2_comb_20 = iter::siblings::<20, COMB, 2, 0>();
        big17_siblings_2 = big::siblings::<300, 2>();
        sib_3_0_4 = iter::siblings::<4, ANY, 3, 0>();
        sib_3_0_7 = iter::siblings::<7, ORD, 3, 0>();
        sib_3_0_5 = iter::siblings::<5, ANY, 3, 0>();
        sib_3_0_9 = iter::siblings::<9, ORD, 3, 0>();
        sib_3_0_3 = iter::siblings::<3, ANY, 3, 0>();
        sib_3_1_4 = iter::siblings::<4, ANY, 3, 1>();
        sib_3_1_3 = iter::siblings::<3, ANY, 3, 1>();
        bulk_sib_3_0_4 = bulk::siblings::<4, ANY, 3, 0>();
        bulk_sib_3_1_4 = bulk::siblings::<4, ANY, 3, 1>();
        bulk_sib_3_2_4 = bulk::siblings::<4, ANY, 3, 2>();
        bulk_sib_3_3_4 = bulk::siblings::<4, ANY, 3, 3>();
        bulk_sib_3_4_4 = bulk::siblings::<4, ANY, 3, 4>();
        bulk_sib_3_5_4 = bulk::siblings::<4, ANY, 3, 5>();
        bulk_sib_3_6_4 = bulk::siblings::<4, ANY, 3, 6>();
        bulk_sib_3_7_4 = bulk::siblings::<4, ANY, 3, 7>();
        bulk_sib_3_8_4 = bulk::siblings::<4, ANY, 3, 8>();
        bulk_sib_3_9_4 = bulk::siblings::<4, ANY, 3, 9>();
        bulk_sib_3_10_4 = bulk::siblings::<4, ANY, 3, 10>();
        bulk_sib_3_11_4 = bulk::siblings::<4, ANY, 3, 11>();
        sib_3_fan_20 = iter::siblings::<20, FAN, 3, 0>();
        sib_3_comb_20 = iter::siblings::<20, COMB, 3, 0>();
        big17_siblings_3 = big::siblings::<300, 3>();
        sib_4_0_4 = iter::siblings::<4, ANY, 4, 0>();
        sib_4_0_7 = iter::siblings::<7, ORD, 4, 0>();
        sib_4_0_5 = iter::siblings::<5, ANY, 4, 0>();
        sib_4_0_9 = iter::siblings::<9, ORD, 4, 0>();
        sib_4_0_3 = iter::siblings::<3, ANY, 4, 0>();
        sib_4_1_4 = iter::siblings::<4, ANY, 4, 1>();
        sib_4_1_3 = iter::siblings::<3, ANY, 4, 1>();
        bulk_sib_4_0_4 = bulk::siblings::<4, ANY, 4, 0>();
        bulk_sib_4_1_4 = bulk::siblings::<4, ANY, 4, 1>();
        bulk_sib_4_2_4 = bulk::siblings::<4, ANY, 4, 2>();
        bulk_sib_4_3_4 = bulk::siblings::<4, ANY, 4, 3>();
        bulk_sib_4_4_4 = bulk::siblings::<4, ANY, 4, 4>();
        bulk_sib_4_5_4 = bulk::siblings::<4, ANY, 4, 5>();
        bulk_sib_4_6_4 = bulk::siblings::<4, ANY, 4, 6>();
        bulk_sib_4_7_4 = bulk::siblings::<4, ANY, 4, 7>();
        bulk_sib_4_8_4 = bulk::siblings::<4, ANY, 4, 8>();
        bulk_sib_4_9_4 = bulk::siblings::<4, ANY, 4, 9>();
        bulk_sib_4_10_4 = bulk::siblings::<4, ANY, 4, 10>();
        bulk_sib_4_11_4 = bulk::siblings::<4, ANY, 4, 11>();
        sib_4_fan_20 = iter::siblings::<20, FAN, 4, 0>();
        sib_4_comb_20 = iter::siblings::<20, COMB, 4, 0>();
        big17_siblings_4 = big::siblings::<300, 4>();
    }
    "P18" {
        anc_0_0_4 = iter::ancestors::<4, ANY, false, 0>();
        anc_0_0_8 = iter::ancestors::<8, ORD, false, 0>();
        anc_0_0_5 = iter::ancestors::<5, ANY, false, 0>();
        anc_0_0_12 = iter::ancestors::<12, ORD, false, 0>();
        anc_0_0_3 = iter::ancestors::<3, ANY, false, 0>();
        anc_0_1_4 = iter::ancestors::<4, ANY, false, 1>();
        anc_0_1_3 = iter::ancestors::<3, ANY, false, 1>();
        bulk_anc_0_0_4 = bulk::ancestors::<4, ANY, false, 0>();
        bulk_anc_0_1_4 = bulk::ancestors::<4, ANY, false, 1>();
        bulk_anc_0_2_4 = bulk::ancestors::<4, ANY, false, 2>();
        bulk_anc_0_3_4 = bulk::ancestors::<4, ANY, false, 3>();
        bulk_anc_0_4_4 = bulk::ancestors::<4, ANY, false, 4>();
        bulk_anc_0_5_4 = bulk::ancestors::<4, ANY, false, 5>();
        bulk_anc_0_6_4 = bulk::ancestors::<4, ANY, false, 6>();
        bulk_anc_0_7_4 = bulk::ancestors::<4, ANY, false, 7>();
        anc_0_chain_32 = iter::ancestors::<32, CHAIN, false, 0>();
        anc_0_comb_32 = iter::ancestors::<32, COMB, false, 0>();
        anc_1_0_4 = iter::ancestors::<4, ANY, true, 0>();
        anc_1_0_8 = iter::ancestors::<8, ORD, true, 0>();
        anc_1_0_5 = iter::ancestors::<5, ANY, true, 0>();
        anc_1_0_12 = iter::ancestors::<12, ORD, true, 0>();
        anc_1_0_3 = iter::ancestors::<3, ANY, true, 0>();
        anc_1_1_4 = iter::ancestors::<4, ANY, true, 1>();
        anc_1_1_3 = iter::ancestors::<3, ANY, true, 1>();
        bulk_anc_1_0_4 = bulk::ancestors::<4, ANY, true, 0>();
        bulk_anc_1_1_4 = bulk::ancestors::<4, ANY, true, 1>();
        bulk_anc_1_2_4 = bulk::ancestors::<4, ANY, true, 2>();
        bulk_anc_1_3_4 = bulk::ancestors::<4, ANY, true, 3>();
        bulk_anc_1_4_4 = bulk::ancestors::<4, ANY, true, 4>();
        bulk_anc_1_5_4 = bulk::ancestors::<4, ANY, true, 5>();
        bulk_anc_1_6_4 = bulk::ancestors::<4, ANY, true, 6>();
        bulk_anc_1_7_4 = bulk::ancestors::<4, ANY, true, 7>();
        anc_1_chain_32 = iter::ancestors::<32, CHAIN, true, 0>();
        anc_1_comb_32 = iter::ancestors::<32, COMB, true, 0>();
        big18_ancestors_chain = big::ancestors::<300, CHAIN>();
        big18_ancestors_fan = big::ancestors::<300, FAN>();
        big18_ancestors_comb = big::ancestors::<300, COMB>();
        big18_ancestors_heap = big::ancestors::<300, HEAP>();
    }
    "P19" {
        loc_3 = clone::local::<3, ANY>();
        loc_4 = clone::local::<4, ANY>();
        loc_5 = clone::local::<5, ORD>();
        loc_6 = clone::local::<6, ORD>();
        locp_3 = clone::local_plain::<3, ANY>();
        locp_4 = clone::local_plain::<4, ORD>();
        loc_5x = clone::local::<5, ANY>();
        loc_7 = clone::local::<7, ORD>();
        loc_8 = clone::local::<8, ORD>();
        loc_chain_12 = clone::local::<12, CHAIN>();
        loc_fan_12 = clone::local::<12, FAN>();
        loc_comb_12 = clone::local::<12, COMB>();
        loc_heap_12 = clone::local::<12, HEAP>();
        big19_clone_chain = big::clone::<300, CHAIN, 0>();
        big19_clone_fan = big::clone::<300, FAN, 0>();
        big19_clone_comb = big::clone::<300, COMB, 0>();
        big19_clone_heap = big::clone::<300, HEAP, 0>();
        loc_chain_24 = clone::local::<24, CHAIN>();
        loc_fan_24 = clone::local::<24, FAN>();
        loc_comb_24 = clone::local::<24, COMB>();
        loc_heap_24 = clone::local::<24, HEAP>();
    }
    "P20" {
        for_3_2 = clone::foreign::<3, ANY, 2>();
        for_4_2 = clone::foreign::<4, ANY, 2>();
        for_5_2 = clone::foreign::<5, ORD, 2>();
        for_6_1 = clone::foreign::<6, ORD, 1>();
        forp_3 = clone::foreign_plain::<3, ANY>();
        forp_4 = clone::foreign_plain::<4, ORD>();
        for_7_1 = clone::foreign::<7, ORD, 1>();
        for_8_1 = clone::foreign::<8, ORD, 1>();
        for_5_5 = clone::foreign::<5, ORD, 5>();
        for_chain_12 = clone::foreign::<12, CHAIN, 2>();
        for_fan_12 = clone::foreign::<12, FAN, 2>();
        for_comb_12 = clone::foreign::<12, COMB, 2>();
        for_heap_12 = clone::foreign::<12, HEAP, 2>();
        big20_clone_chain = big::clone::<300, CHAIN, 1>();
        big20_clone_fan = big::clone::<300, FAN, 1>();
        big20_clone_comb = big::clone::<300, COMB, 1>();
        big20_clone_heap = big::clone::<300, HEAP, 1>();
        for_chain_24 = clone::foreign::<24, CHAIN, 2>();
        for_fan_24 = clone::foreign::<24, FAN, 2>();
        for_comb_24 = clone::foreign::<24, COMB, 2>();
        for_heap_24 = clone::foreign::<24, HEAP, 2>();
    }
    "P21" {
        step_0_3 = build::chain_step::<6, 3, ANY, 0>();
        step_0_4 = build::chain_step::<7, 4, ORD, 0>();
        step_0_6 = build::chain_step::<9, 6, ORD, 0>();
        step_0_2 = build::chain_step::<5, 2, ANY, 0>();
        step_1_3 = build::chain_step::<6, 3, ANY, 1>();
        step_1_4 = build::chain_step::<7, 4, ORD, 1>();
        step_1_6 = build::chain_step::<9, 6, ORD, 1>();
        step_1_2 = build::chain_step::<5, 2, ANY, 1>();
        step_2_3 = build::chain_step::<6, 3, ANY, 2>();
        step_2_4 = build::chain_step::<7, 4, ORD, 2>();
        step_2_6 = build::chain_step::<9, 6, ORD, 2>();
        step_2_2 = build::chain_step::<5, 2, ANY, 2>();
        step_3_3 = build::chain_step::<6, 3, ANY, 3>();
        step_3_4 = build::chain_step::<7, 4, ORD, 3>();
        step_3_6 = build::chain_step::<9, 6, ORD, 3>();
        step_3_2 = build::chain_step::<5, 2, ANY, 3>();
        chain_3 = build::chain::<4, 3>();
        chain_4 = build::chain::<5, 4>();
        chain_5 = build::chain::<6, 5>();
        chain_6 = build::chain::<7, 6>();
        chain_7 = build::chain::<8, 7>();
        chain_8 = build::chain::<9, 8>();
        big21_down = big::builder::<300, 0>();
        big21_along = big::builder::<300, 1>();
    }
    "P22" {
        nest_1_4 = build::nest::<4, 5, 1>();
        nest_1_6 = build::nest::<6, 7, 1>();
        nest_1_8 = build::nest::<8, 9, 1>();
        nest_2_3 = build::nest::<3, 4, 2>();
        nest_2_4 = build::nest::<4, 5, 2>();
        nest_2_5 = build::nest::<5, 6, 2>();
        nest_3_3 = build::nest::<3, 4, 3>();
        nest_3_4 = build::nest::<4, 5, 3>();
        nest_2_6 = build::nest::<6, 7, 2>();
        nest_3_5 = build::nest::<5, 6, 3>();
        nest_3_6 = build::nest::<6, 7, 3>();
        big22_nest = big::builder::<300, 2>();
    }
    "P23" {
        nav_4 = ops::neighbours::<4, ANY>();
        nav_8 = ops::neighbours::<8, ORD>();
        nav_6 = ops::neighbours::<6, ANY>();
        nav_12 = ops::neighbours::<12, ORD>();
        nav_3 = ops::neighbours::<3, ANY>();
        nav_chain_32 = ops::neighbours::<32, CHAIN>();
        nav_fan_32 = ops::neighbours::<32, FAN>();
        nav_comb_32 = ops::neighbours::<32, COMB>();
        nav_heap_32 = ops::neighbours::<32, HEAP>();
        big23_nav_chain = big::read::<300, CHAIN>();
        big23_nav_fan = big::read::<300, FAN>();
        big23_nav_comb = big::read::<300, COMB>();
        big23_nav_heap = big::read::<300, HEAP>();
    }
    "P24" {
        prt_0_0_2 = print::print::<6, 2, ANY, 0, false>();
        prt_0_0_3 = print::print::<10, 3, ANY, 0, false>();
        prt_0_0_4 = print::print::<14, 4, ANY, 0, false>();
        prt_0_0_5 = print::print::<18, 5, ORD, 0, false>();
        prt_0_0_6 = print::print::<22, 6, ORD, 0, false>();
        prt_0_0_7 = print::print::<26, 7, ORD, 0, false>();
        prt_0_1_2 = print::print::<6, 2, ANY, 0, true>();
        prt_0_1_3 = print::print::<10, 3, ANY, 0, true>();
        prt_0_1_4 = print::print::<14, 4, ANY, 0, true>();
        prt_0_1_5 = print::print::<18, 5, ORD, 0, true>();
        prt_0_1_6 = print::print::<22, 6, ORD, 0, true>();
        prt_0_1_7 = print::print::<26, 7, ORD, 0, true>();
        prt_1_0_2 = print::print::<6, 2, ANY, 1, false>();
        prt_1_0_3 = print::print::<10, 3, ANY, 1, false>();
        prt_1_0_4 = print::print::<14, 4, ANY, 1, false>();
        prt_1_0_5 = print::print::<18, 5, ORD, 1, false>();
        prt_1_0_6 = print::print::<22, 6, ORD, 1, false>();
        prt_1_0_7 = print::print::<26, 7, ORD, 1, false>();
        prt_1_1_2 = print::print::<6, 2, ANY, 1, true>();
        prt_1_1_3 = print::print::<10, 3, ANY, 1, true>();
        prt_1_1_4 = print::print::<14, 4, ANY, 1, true>();
        prt_1_1_5 = print::print::<18, 5, ORD, 1, true>();
        prt_1_1_6 = print::print::<22, 6, ORD, 1, true>();
        prt_1_1_7 = print::print::<26, 7, ORD, 1, true>();
        prt_2_0_2 = print::print::<6, 2, ANY, 2, false>();
        prt_2_0_3 = print::print::<10, 3, ANY, 2, false>();
        prt_2_0_4 = print::print::<14, 4, ANY, 2, false>();
        prt_2_0_5 = print::print::<18, 5, ORD, 2, false>();
        prt_2_0_6 = print::print::<22, 6, ORD, 2, false>();
        prt_2_0_7 = print::print::<26, 7, ORD, 2, false>();
        prt_2_1_2 = print::print::<6, 2, ANY, 2, true>();
        prt_2_1_3 = print::print::<10, 3, ANY, 2, true>();
        prt_2_1_4 = print::print::<14, 4, ANY, 2, true>();
        prt_2_1_5 = print::print::<18, 5, ORD, 2, true>();
        prt_2_1_6 = print::print::<22, 6, ORD, 2, true>();
        prt_2_1_7 = print::print::<26, 7, ORD, 2, true>();
        prt_3_0_2 = print::print::<6, 2, ANY, 3, false>();
        prt_3_0_3 = print::print::<10, 3, ANY, 3, false>();
        prt_3_0_4 = print::print::<14, 4, ANY, 3, false>();
        prt_3_0_5 = print::print::<18, 5, ORD, 3, false>();
        prt_3_0_6 = print::print::<22, 6, ORD, 3, false>();
        prt_3_0_7 = print::print::<26, 7, ORD, 3, false>();
        prt_4_0_2 = print::print::<6, 2, ANY, 4, false>();
        prt_4_0_3 = print::print::<10, 3, ANY, 4, false>();
        prt_4_0_4 = print::print::<14, 4, ANY, 4, false>();
        prt_4_0_5 = print::print::<18, 5, ORD, 4, false>();
        prt_4_0_6 = print::print::<22, 6, ORD, 4, false>();
        prt_4_0_7 = print::print::<26, 7, ORD, 4, false>();
        fail_0_0_3 = print::fails::<3, ANY, false, 0>();
        fail_0_0_4 = print::fails::<4, ANY, false, 0>();
        fail_0_0_6 = print::fails::<6, ORD, false, 0>();
        fail_0_0_5 = print::fails::<5, ANY, false, 0>();
        fail_0_0_7 = print::fails::<7, ORD, false, 0>();
        fail_0_1_3 = print::fails::<3, ANY, true, 0>();
        fail_0_1_4 = print::fails::<4, ANY, true, 0>();
        fail_0_1_6 = print::fails::<6, ORD, true, 0>();
        fail_0_1_5 = print::fails::<5, ANY, true, 0>();
        fail_0_1_7 = print::fails::<7, ORD, true, 0>();
        fail_1_0_3 = print::fails::<3, ANY, false, 1>();
        fail_1_0_4 = print::fails::<4, ANY, false, 1>();
        fail_1_0_6 = print::fails::<6, ORD, false, 1>();
        fail_1_0_5 = print::fails::<5, ANY, false, 1>();
        fail_1_0_7 = print::fails::<7, ORD, false, 1>();
        fail_1_1_3 = print::fails::<3, ANY, true, 1>();
        fail_1_1_4 = print::fails::<4, ANY, true, 1>();
        fail_1_1_6 = print::fails::<6, ORD, true, 1>();
        fail_1_1_5 = print::fails::<5, ANY, true, 1>();
        fail_1_1_7 = print::fails::<7, ORD, true, 1>();
        prt_chain_13 = print::print::<50, 13, CHAIN, 0, false>();
        prt_fan_13 = print::print::<50, 13, FAN, 0, false>();
        prt_comb_13 = print::print::<50, 13, COMB, 0, false>();
        prt_heap_13 = print::print::<50, 13, HEAP, 0, false>();
        prt2_chain_10 = print::print::<38, 10, CHAIN, 2, false>();
        prt2_comb_10 = print::print::<38, 10, COMB, 2, false>();
        big24_print_chain = big::print::<100, CHAIN>();
        big24_print_fan = big::print::<100, FAN>();
        big24_print_comb = big::print::<100, COMB>();
        big24_print_heap = big::print::<100, HEAP>();
    }
    "P25" {
        whole_3 = clone::whole::<3, ANY>();
        whole_4 = clone::whole::<4, ANY>();
        whole_7 = clone::whole::<7, ORD>();
        whole_5 = clone::whole::<5, ANY>();
        whole_9 = clone::whole::<9, ORD>();
        wthen_0_3 = clone::whole_then::<3, ANY, 0>();
        wthen_0_4 = clone::whole_then::<4, ANY, 0>();
        wthen_0_6 = clone::whole_then::<6, ORD, 0>();
        wthen_0_5 = clone::whole_then::<5, ANY, 0>();
        wthen_0_8 = clone::whole_then::<8, ORD, 0>();
        wthen_1_3 = clone::whole_then::<3, ANY, 1>();
        wthen_1_4 = clone::whole_then::<4, ANY, 1>();
        wthen_1_6 = clone::whole_then::<6, ORD, 1>();
        wthen_1_5 = clone::whole_then::<5, ANY, 1>();
        wthen_1_8 = clone::whole_then::<8, ORD, 1>();
        wthen_2_3 = clone::whole_then::<3, ANY, 2>();
        wthen_2_4 = clone::whole_then::<4, ANY, 2>();
        wthen_2_6 = clone::whole_then::<6, ORD, 2>();
        wthen_2_5 = clone::whole_then::<5, ANY, 2>();
        wthen_2_8 = clone::whole_then::<8, ORD, 2>();
        wthen_3_3 = clone::whole_then::<3, ANY, 3>();
        wthen_3_4 = clone::whole_then::<4, ANY, 3>();
        wthen_3_6 = clone::whole_then::<6, ORD, 3>();
        wthen_3_5 = clone::whole_then::<5, ANY, 3>();
        wthen_3_8 = clone::whole_then::<8, ORD, 3>();
        wthen_4_3 = clone::whole_then::<3, ANY, 4>();
        wthen_4_4 = clone::whole_then::<4, ANY, 4>();
        wthen_4_6 = clone::whole_then::<6, ORD, 4>();
        wthen_4_5 = clone::whole_then::<5, ANY, 4>();
        wthen_4_8 = clone::whole_then::<8, ORD, 4>();
        wthen_5_3 = clone::whole_then::<3, ANY, 5>();
        wthen_5_4 = clone::whole_then::<4, ANY, 5>();
        wthen_5_6 = clone::whole_then::<6, ORD, 5>();
        wthen_5_5 = clone::whole_then::<5, ANY, 5>();
        wthen_5_8 = clone::whole_then::<8, ORD, 5>();
        wthen_6_3 = clone::whole_then::<3, ANY, 6>();
        wthen_6_4 = clone::whole_then::<4, ANY, 6>();
        wthen_6_6 = clone::whole_then::<6, ORD, 6>();
        wthen_6_5 = clone::whole_then::<5, ANY, 6>();
        wthen_6_8 = clone::whole_then::<8, ORD, 6>();
        wthen_7_3 = clone::whole_then::<3, ANY, 7>();
        wthen_7_4 = clone::whole_then::<4, ANY, 7>();
        wthen_7_6 = clone::whole_then::<6, ORD, 7>();
        wthen_7_5 = clone::whole_then::<5, ANY, 7>();
        wthen_7_8 = clone::whole_then::<8, ORD, 7>();
        over_3_4 = clone::over::<3, ANY, 4>();
        over_4_2 = clone::over::<4, ANY, 2>();
        over_2_6 = clone::over::<2, ANY, 6>();
        over_4_5 = clone::over::<4, ANY, 5>();
        over_8_3 = clone::over::<8, ORD, 3>();
        over_5_3 = clone::over::<5, ANY, 3>();
        over_10_3 = clone::over::<10, ORD, 3>();
        whole_chain_16 = clone::whole::<16, CHAIN>();
        whole_fan_16 = clone::whole::<16, FAN>();
        whole_comb_16 = clone::whole::<16, COMB>();
        whole_heap_16 = clone::whole::<16, HEAP>();
        big25_clone_chain = big::clone::<300, CHAIN, 2>();
        big25_clone_fan = big::clone::<300, FAN, 2>();
        big25_clone_comb = big::clone::<300, COMB, 2>();
        big25_clone_heap = big::clone::<300, HEAP, 2>();
        whole_chain_32 = clone::whole::<32, CHAIN>();
        whole_fan_32 = clone::whole::<32, FAN>();
        whole_comb_32 = clone::whole::<32, COMB>();
        whole_heap_32 = clone::whole::<32, HEAP>();
    }
    "P26" {
        floc_0_3 = fault::local::<3, ANY, 0>();
        floc_0_4 = fault::local::<4, ANY, 0>();
        floc_0_5 = fault::local::<5, ORD, 0>();
        floc_0_6 = fault::local::<6, ORD, 0>();
        floc_0_7 = fault::local::<7, ORD, 0>();
        ffor_0_3 = fault::foreign::<3, ANY, 2, 0>();
        ffor_0_4 = fault::foreign::<4, ORD, 2, 0>();
        ffor_0_5 = fault::foreign::<5, ORD, 2, 0>();
        ffor_0_6 = fault::foreign::<6, ORD, 2, 0>();
        floc_1_3 = fault::local::<3, ANY, 1>();
        floc_1_4 = fault::local::<4, ANY, 1>();
        floc_1_5 = fault::local::<5, ORD, 1>();
        floc_1_6 = fault::local::<6, ORD, 1>();
        floc_1_7 = fault::local::<7, ORD, 1>();
        ffor_1_3 = fault::foreign::<3, ANY, 2, 1>();
        ffor_1_4 = fault::foreign::<4, ORD, 2, 1>();
        ffor_1_5 = fault::foreign::<5, ORD, 2, 1>();
        ffor_1_6 = fault::foreign::<6, ORD, 2, 1>();
        floc_2_3 = fault::local::<3, ANY, 2>();
        floc_2_4 = fault::local::<4, ORD, 2>();
        floc_2_6 = fault::local::<6, ORD, 2>();
        floc_2_7 = fault::local::<7, ORD, 2>();
        ffor_2_3 = fault::foreign::<3, ANY, 2, 2>();
        ffor_2_4 = fault::foreign::<4, ORD, 2, 2>();
        ffor_2_5 = fault::foreign::<5, ORD, 2, 2>();
        ffor_2_6 = fault::foreign::<6, ORD, 2, 2>();
        fwhole_3 = fault::whole::<3, ANY>();
        fwhole_4 = fault::whole::<4, ANY>();
        fwhole_6 = fault::whole::<6, ORD>();
        fwhole_5 = fault::whole::<5, ANY>();
        fwhole_8 = fault::whole::<8, ORD>();
    }
    "P27" {
        blame_0_3 = dead::blame::<3, ANY, 0>();
        blame_0_4 = dead::blame::<4, ANY, 0>();
        blame_1_3 = dead::blame::<3, ANY, 1>();
        blame_1_4 = dead::blame::<4, ANY, 1>();
        blame_2_3 = dead::blame::<3, ANY, 2>();
        blame_2_4 = dead::blame::<4, ANY, 2>();
        blame_3_3 = dead::blame::<3, ANY, 3>();
        blame_3_4 = dead::blame::<4, ANY, 3>();
        blame_4_3 = dead::blame::<3, ANY, 4>();
        blame_4_4 = dead::blame::<4, ANY, 4>();
        blame_5_3 = dead::blame::<3, ANY, 5>();
        blame_5_4 = dead::blame::<4, ANY, 5>();
        blame_6_3 = dead::blame::<3, ANY, 6>();
        blame_6_4 = dead::blame::<4, ANY, 6>();
        blame_7_3 = dead::blame::<3, ANY, 7>();
        blame_7_4 = dead::blame::<4, ANY, 7>();
        blame_8_3 = dead::blame::<3, ANY, 8>();
        blame_8_4 = dead::blame::<4, ANY, 8>();
        blame_9_3 = dead::blame::<3, ANY, 9>();
        blame_9_4 = dead::blame::<4, ANY, 9>();
        blame_10_3 = dead::blame::<3, ANY, 10>();
        blame_10_4 = dead::blame::<4, ANY, 10>();
        blame_11_3 = dead::blame::<3, ANY, 11>();
        blame_11_4 = dead::blame::<4, ANY, 11>();
        blame_12_3 = dead::blame::<3, ANY, 12>();
        blame_12_4 = dead::blame::<4, ANY, 12>();
        blame_13_3 = dead::blame::<3, ANY, 13>();
        blame_13_4 = dead::blame::<4, ANY, 13>();
        blame_14_3 = dead::blame::<3, ANY, 14>();
        blame_14_4 = dead::blame::<4, ANY, 14>();
        blame_15_3 = dead::blame::<3, ANY, 15>();
        blame_15_4 = dead::blame::<4, ANY, 15>();
        blame_16_3 = dead::blame::<3, ANY, 16>();
        blame_16_4 = dead::blame::<4, ANY, 16>();
        blame_17_3 = dead::blame::<3, ANY, 17>();
        blame_17_4 = dead::blame::<4, ANY, 17>();
        blame_18_3 = dead::blame::<3, ANY, 18>();
        blame_18_4 = dead::blame::<4, ANY, 18>();
        blame_19_3 = dead::blame::<3, ANY, 19>();
        blame_19_4 = dead::blame::<4, ANY, 19>();
        blame_20_3 = dead::blame::<3, ANY, 20>();
        blame_20_4 = dead::blame::<4, ANY, 20>();
        blame_21_3 = dead::blame::<3, ANY, 21>();
        blame_21_4 = dead::blame::<4, ANY, 21>();
        blame_22_3 = dead::blame::<3, ANY, 22>();
        blame_22_4 = dead::blame::<4, ANY, 22>();
        blame_23_3 = dead::blame::<3, ANY, 23>();
        blame_23_4 = dead::blame::<4, ANY, 23>();
        blame_24_3 = dead::blame::<3, ANY, 24>();
        blame_24_4 = dead::blame::<4, ANY, 24>();
        blame_25_3 = dead::blame::<3, ANY, 25>();
        blame_25_4 = dead::blame::<4, ANY, 25>();
        blame_26_3 = dead::blame::<3, ANY, 26>();
        blame_26_4 = dead::blame::<4, ANY, 26>();
        blame_27_3 = dead::blame::<3, ANY, 27>();
        blame_27_4 = dead::blame::<4, ANY, 27>();
        blame_28_3 = dead::blame::<3, ANY, 28>();
        blame_28_4 = dead::blame::<4, ANY, 28>();
        blame_29_3 = dead::blame::<3, ANY, 29>();
        blame_29_4 = dead::blame::<4, ANY, 29>();
        blame_30_3 = dead::blame::<3, ANY, 30>();
        blame_30_4 = dead::blame::<4, ANY, 30>();
        blame_31_3 = dead::blame::<3, ANY, 31>();
        blame_31_4 = dead::blame::<4, ANY, 31>();
        blame_32_3 = dead::blame::<3, ANY, 32>();
        blame_32_4 = dead::blame::<4, ANY, 32>();
        blame_33_3 = dead::blame::<3, ANY, 33>();
        blame_33_4 = dead::blame::<4, ANY, 33>();
        blame_34_3 = dead::blame::<3, ANY, 34>();
        blame_34_4 = dead::blame::<4, ANY, 34>();
        refuse_0_3 = dead::blame_live::<3, ANY, 0>();
        refuse_0_4 = dead::blame_live::<4, ANY, 0>();
        refuse_0_5 = dead::blame_live::<5, ANY, 0>();
        refuse_1_3 = dead::blame_live::<3, ANY, 1>();
        refuse_1_4 = dead::blame_live::<4, ANY, 1>();
        refuse_1_5 = dead::blame_live::<5, ANY, 1>();
        refuse_2_3 = dead::blame_live::<3, ANY, 2>();
        refuse_2_4 = dead::blame_live::<4, ANY, 2>();
        refuse_2_5 = dead::blame_live::<5, ANY, 2>();
        refuse_3_3 = dead::blame_live::<3, ANY, 3>();
        refuse_3_4 = dead::blame_live::<4, ANY, 3>();
        refuse_3_5 = dead::blame_live::<5, ANY, 3>();
        refuse_4_3 = dead::blame_live::<3, ANY, 4>();
        refuse_4_4 = dead::blame_live::<4, ANY, 4>();
        refuse_4_5 = dead::blame_live::<5, ANY, 4>();
        refuse_5_3 = dead::blame_live::<3, ANY, 5>();
        refuse_5_4 = dead::blame_live::<4, ANY, 5>();
        refuse_5_5 = dead::blame_live::<5, ANY, 5>();
        refuse_6_3 = dead::blame_live::<3, ANY, 6>();
        refuse_6_4 = dead::blame_live::<4, ANY, 6>();
        refuse_6_5 = dead::blame_live::<5, ANY, 6>();
        refuse_7_3 = dead::blame_live::<3, ANY, 7>();
        refuse_7_4 = dead::blame_live::<4, ANY, 7>();
        refuse_7_5 = dead::blame_live::<5, ANY, 7>();
        bchain_2 = dead::blame_chain::<2>();
        bchain_3 = dead::blame_chain::<3>();
        bchain_4 = dead::blame_chain::<4>();
        bover_0 = ids::overflow::<0>();
        bover_1 = ids::overflow::<1>();
        bover_2 = ids::overflow::<2>();
    }
    "P28" {
        noheap_0_4 = iter::no_heap::<4, ANY, 0>();
        noheap_0_6 = iter::no_heap::<6, ORD, 0>();
        noheap_0_5 = iter::no_heap::<5, ANY, 0>();
        noheap_0_7 = iter::no_heap::<7, ORD, 0>();
        noheap_0_3 = iter::no_heap::<3, ANY, 0>();
        noheap_1_4 = iter::no_heap::<4, ANY, 1>();
        noheap_1_6 = iter::no_heap::<6, ORD, 1>();
        noheap_1_5 = iter::no_heap::<5, ANY, 1>();
        noheap_1_7 = iter::no_heap::<7, ORD, 1>();
        noheap_1_3 = iter::no_heap::<3, ANY, 1>();
    }
}
