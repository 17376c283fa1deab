//! Anchor discriminators (part of the on-chain interface).
pub const ACC_PRESALE: u64 = 0xa834dc730eded726;
pub const ACC_ESCROW: u64 = 0x9bda16babb7bd51f;
pub const ACC_MERKLE_ROOT_CONFIG: u64 = 0x27bb3249d9de0267;
pub const ACC_OPERATOR: u64 = 0x75cc8b4591bc1fdb;
pub const ACC_PERMISSIONED_SERVER_METADATA: u64 = 0xf64b8a931460f282;
pub const ACC_FIXED_PRICE_PRESALE_EXTRA_ARGS: u64 = 0x53bf368494c68b4b;
pub const IX_INITIALIZE_FIXED_PRICE_PRESALE_ARGS: u64 = 0xc2f38fccc17f50e0;
pub const IX_CLOSE_FIXED_PRICE_PRESALE_ARGS: u64 = 0xe12ac863f746417d;
pub const IX_INITIALIZE_PRESALE: u64 = 0x644477967e0cae09;
pub const IX_CREATE_MERKLE_ROOT_CONFIG: u64 = 0xa6e8ba4ef0fdf337;
pub const IX_CLOSE_MERKLE_ROOT_CONFIG: u64 = 0x0c03fdccc126ae9d;
pub const IX_CREATE_PERMISSIONLESS_ESCROW: u64 = 0x0097c9f81a091af1;
pub const IX_CREATE_PERMISSIONED_ESCROW_WITH_CREATOR: u64 = 0xad1226c8271a8283;
pub const IX_CREATE_PERMISSIONED_ESCROW_WITH_MERKLE_PROOF: u64 = 0x055bef3b9136c83e;
pub const IX_CREATE_OPERATOR: u64 = 0x0b3bfcb54bee2891;
pub const IX_REVOKE_OPERATOR: u64 = 0xaf1e08584d5719b9;
pub const IX_DEPOSIT: u64 = 0xb6f2e15289c623f2;
pub const IX_WITHDRAW: u64 = 0x22a16d949c4612b7;
pub const IX_CLAIM: u64 = 0xd26c9fd5c1d6c63e;
pub const IX_WITHDRAW_REMAINING_QUOTE: u64 = 0x7f3b916422bcfd36;
pub const IX_PERFORM_UNSOLD_BASE_TOKEN_ACTION: u64 = 0x6e2fe1b041088d65;
pub const IX_CLOSE_ESCROW: u64 = 0x32905bbf925eab8b;
pub const IX_CREATOR_WITHDRAW: u64 = 0x6a256caefece755c;
pub const IX_REFRESH_ESCROW: u64 = 0xa91bc993ed11ed44;
pub const IX_CREATE_PERMISSIONED_SERVER_METADATA: u64 = 0xb4b9d11291780d8b;
pub const IX_CLOSE_PERMISSIONED_SERVER_METADATA: u64 = 0x5f8af726dc9302e2;
pub const IX_CREATOR_COLLECT_FEE: u64 = 0x0796a340973ed709;
pub const EVT_DEPOSIT: u64 = 0xa842da98ad6307f5;
pub const EVT_WITHDRAW: u64 = 0x7281a6f4c796c195;
pub const EVT_CLAIM: u64 = 0x01aec45c68a9f7db;
pub const EVT_WITHDRAW_REMAINING_QUOTE: u64 = 0xd07c1ad341939680;
pub const EVT_PERFORM_UNSOLD_BASE_TOKEN_ACTION: u64 = 0x82e4abdc8ff98665;
pub const EVT_ESCROW_CLOSE: u64 = 0xc5862723dd3fec19;
pub const EVT_CREATOR_WITHDRAW: u64 = 0x4df54107ec59bd58;
pub const EVT_ESCROW_REFRESH: u64 = 0xac959afdcecbe07a;
pub const EVT_CREATOR_COLLECT_FEE: u64 = 0x68361ad6ff73522f;
pub const EVT_ESCROW_CREATE: u64 = 0x384f2d150cfc27ce;
pub const EVT_PRESALE_VAULT_CREATE: u64 = 0xb0c62f48d184c1d7;
pub const EVT_MERKLE_ROOT_CONFIG_CREATE: u64 = 0x14ca701e93e2477c;
pub const EVT_OPERATOR_CREATE: u64 = 0x4fff6453d2482166;
pub const EVT_PERMISSIONED_SERVER_METADATA_CREATE: u64 = 0xe8cefe64af51b767;
pub const EVT_FIXED_PRICE_PRESALE_ARGS_CLOSE: u64 = 0xa19b9681c46cd1e8;
pub const EVT_PERMISSIONED_SERVER_METADATA_CLOSE: u64 = 0x6f7f165963cb31cd;
pub const EVT_CLOSE_MERKLE_ROOT_CONFIG: u64 = 0xfa1139346fb5a335;
pub const EVT_FIXED_PRICE_PRESALE_ARGS_CREATE: u64 = 0x860ee96363c40296;
