//! All harnesses.
pub const ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_deposit", crate::h_sale::h_deposit),
    ("h_fee_mono", crate::h_sale::h_fee_mono),
    ("h_withdraw", crate::h_sale::h_withdraw),
    ("h_claim", crate::h_after::h_claim),
    ("h_vest", crate::h_after::h_vest),
    ("h_refresh", crate::h_after::h_refresh),
    ("h_refund", crate::h_after::h_refund),
    ("h_refund_fair", crate::h_after::h_refund_fair),
    ("h_creator_withdraw", crate::h_after::h_creator_withdraw),
    ("h_collect_fee", crate::h_after::h_collect_fee),
    ("h_unsold", crate::h_after::h_unsold),
    ("h_close_escrow", crate::h_after::h_close_escrow),
    ("h_create_escrow", crate::h_setup::h_create_escrow),
    ("h_operator", crate::h_setup::h_operator),
    ("h_merkle_config", crate::h_setup::h_merkle_config),
    ("h_metadata", crate::h_setup::h_metadata),
    ("h_fixed_args", crate::h_setup::h_fixed_args),
    ("h_life", crate::h_life::h_life),
    ("h_settle", crate::h_settle::h_settle),
    ("h_settle_base", crate::h_settle::h_settle_base),
    ("h_init", crate::h_init::h_init),
    ("h_tree", crate::h_tree::h_tree),
    ("h_tree_sound", crate::h_tree::h_tree_sound),
    ("h_ext", crate::h_hook::h_ext),
    ("h_slices", crate::h_hook::h_slices),
];
